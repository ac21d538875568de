//! The output of child processes (stdx::process). Under the executor the system calls below stand
//! for the child; natively a shell writes the same pieces at the same times.
use std::process::Command;
use std::sync::Mutex;
use sxrt::*;

sxrt::harnesses! { h_output }

#[derive(Clone)]
enum Step {
    /// to standard output (else error)
    Write(bool, Vec<u8>),
    Close(bool),
}
#[derive(Default, Clone)]
struct Child {
    /// what the child does, and whether it then pauses
    steps: Vec<(Step, bool)>,
    code: i32,
    done: usize,
    buf: [Vec<u8>; 2],
    closed: [bool; 2],
    blocking: [bool; 2],
    waited: bool,
}
static CHILD: Mutex<Option<Child>> = Mutex::new(None);
/// how many times `poll` has to be called until it is interrupted
static INTR: Mutex<i32> = Mutex::new(-1);
/// how many times it was called
static WAITS: Mutex<usize> = Mutex::new(0);
fn waits() {
    let mut w = WAITS.lock().unwrap();
    *w += 1;
    check(*w < 300, 408);
}

#[cfg_attr(not(target_arch = "riscv64"), allow(dead_code))]
impl Child {
    /// until the next pause
    fn go(&mut self) -> bool {
        let had = self.done;
        while self.done < self.steps.len() {
            let (s, pause) = self.steps[self.done].clone();
            self.done += 1;
            match s {
                Step::Write(out, b) => self.buf[!out as usize].extend_from_slice(&b),
                Step::Close(out) => self.closed[!out as usize] = true,
            }
            if pause {
                return true;
            }
        }
        if had == self.done && self.closed == [true, true] {
            return false;
        }
        if self.done == self.steps.len() {
            self.closed = [true, true];
        }
        true
    }
}

#[cfg(target_arch = "riscv64")]
mod calls {
    use super::*;
    const OUT: [i32; 2] = [101, 102];
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    #[no_mangle]
    #[allow(non_upper_case_globals)]
    pub static environ: usize = 0;
    static PIPES: Mutex<usize> = Mutex::new(0);
    fn which(fd: i32) -> Option<usize> {
        OUT.iter().position(|f| *f == fd)
    }
    #[repr(C)]
    pub struct Poll {
        fd: i32,
        events: i16,
        revents: i16,
    }
    #[no_mangle]
    pub unsafe extern "C" fn pipe2(p: *mut i32, _: i32) -> i32 {
        let mut k = PIPES.lock().unwrap();
        *p = OUT[*k];
        *p.add(1) = 110 + *k as i32;
        *k += 1;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(_: *const u8, _: i32, _: i32) -> i32 {
        100
    }
    #[no_mangle]
    pub extern "C" fn close(_: i32) -> i32 {
        0
    }
    #[no_mangle]
    pub extern "C" fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32 {
        if let (Some(k), 4) = (which(fd), cmd) {
            CHILD.lock().unwrap().as_mut().unwrap().blocking[k] = arg & 0x800 == 0;
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn ioctl(fd: i32, req: u64, arg: *const i32) -> i32 {
        if let (Some(k), 0x5421) = (which(fd), req) {
            CHILD.lock().unwrap().as_mut().unwrap().blocking[k] = *arg == 0;
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn poll(p: *mut Poll, n: u64, _: i32) -> i32 {
        waits();
        {
            let mut i = INTR.lock().unwrap();
            *i -= 1;
            if *i == 0 {
                *__errno_location() = 4;
                return -1;
            }
        }
        let mut g = CHILD.lock().unwrap();
        let c = g.as_mut().unwrap();
        loop {
            let mut ready = 0;
            for k in 0..n as usize {
                let p = &mut *p.add(k);
                p.revents = 0;
                if let Some(w) = which(p.fd) {
                    if !c.buf[w].is_empty() && p.events & 1 != 0 {
                        p.revents |= 1;
                    }
                    if c.closed[w] {
                        p.revents |= 16;
                    }
                }
                ready += (p.revents != 0) as i32;
            }
            if ready > 0 {
                return ready;
            }
            // waits for ever if nothing can come any more
            check(c.go(), 402);
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let mut g = CHILD.lock().unwrap();
        let c = g.as_mut().unwrap();
        let w = match which(fd) {
            Some(w) => w,
            None => return 0,
        };
        loop {
            if !c.buf[w].is_empty() {
                let n = n.min(c.buf[w].len());
                std::ptr::copy_nonoverlapping(c.buf[w].as_ptr(), buf, n);
                c.buf[w].drain(..n);
                return n as isize;
            }
            if c.closed[w] {
                return 0;
            }
            if !c.blocking[w] {
                *__errno_location() = 11;
                return -1;
            }
            c.go();
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnp(pid: *mut i32, _: *const u8, _: *const u8, _: *const u8, _: *const u8, _: *const u8) -> i32 {
        *pid = 77;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn waitpid(_: i32, status: *mut i32, _: i32) -> i32 {
        let mut g = CHILD.lock().unwrap();
        let c = g.as_mut().unwrap();
        c.waited = true;
        *status = c.code << 8;
        77
    }
    #[no_mangle]
    pub extern "C" fn gnu_get_libc_version() -> *const u8 {
        b"2.39\0".as_ptr()
    }
    macro_rules! fine {
        ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(_: u64, _: u64, _: u64) -> i32 { 0 })* };
    }
    fine! { posix_spawn_file_actions_init posix_spawn_file_actions_destroy posix_spawn_file_actions_adddup2
    posix_spawnattr_init posix_spawnattr_destroy posix_spawnattr_setflags posix_spawnattr_setsigmask
    posix_spawnattr_setsigdefault posix_spawnattr_setpgroup sigemptyset sigaddset }
    pub fn command(_: &Child) -> Command {
        *PIPES.lock().unwrap() = 0;
        Command::new("/bin/child")
    }
    pub fn done() {}
}

#[cfg(not(target_arch = "riscv64"))]
mod calls {
    use super::*;
    use std::fmt::Write;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }
    /// The ends of the two pipes by which the child is told to go on and says that it has, and
    /// how many times it still can.
    static LINK: Mutex<Option<(i64, i64, usize)>> = Mutex::new(None);
    /// The child goes on until its next pause.
    unsafe fn go() -> bool {
        let mut g = LINK.lock().unwrap();
        match g.as_mut() {
            Some((ctl, ack, left)) if *left > 0 => {
                *left -= 1;
                syscall(1, *ctl, b"\n".as_ptr(), 1i64);
                let mut b = 0u8;
                syscall(0, *ack, &mut b as *mut u8, 1i64);
                true
            }
            _ => false,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn poll(p: *mut u8, n: u64, t: i32) -> i32 {
        if LINK.lock().unwrap().is_none() {
            return syscall(7, p, n, t as i64) as i32;
        }
        waits();
        {
            let mut i = INTR.lock().unwrap();
            *i -= 1;
            if *i == 0 {
                *__errno_location() = 4;
                return -1;
            }
        }
        loop {
            let r = syscall(7, p, n, 0i64) as i32;
            if r != 0 {
                return r;
            }
            if !go() {
                return syscall(7, p, n, t as i64) as i32;
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let link = LINK.lock().unwrap().is_some();
        // a pipe that would block
        if link && syscall(72, fd as i64, 3i64, 0i64) & 0x800 == 0 {
            let mut st = [0u32; 36];
            if syscall(5, fd as i64, st.as_mut_ptr()) == 0 && st[6] & 0o170000 == 0o010000 {
                loop {
                    let mut p = (fd, 1i16, 0i16);
                    if syscall(7, &mut p as *mut (i32, i16, i16), 1i64, 0i64) != 0 || !go() {
                        break;
                    }
                }
            }
        }
        let r = syscall(0, fd as i64, buf, n as i64);
        r as isize
    }
    pub fn command(c: &Child) -> Command {
        // the child's ends are 8 and 9; the others are not inherited
        let (mut ctl, mut ack) = ([0i32; 2], [0i32; 2]);
        unsafe {
            assert!(syscall(293, ctl.as_mut_ptr(), 0o2000000i64) == 0 && syscall(293, ack.as_mut_ptr(), 0o2000000i64) == 0);
            assert!(ack[1] < 8);
            syscall(33, ctl[0] as i64, 8i64);
            syscall(33, ack[1] as i64, 9i64);
        }
        let mut s = "read _ <&8; ".to_string();
        let mut open = 2;
        let mut groups = 1;
        for (step, pause) in &c.steps {
            match step {
                Step::Write(out, b) => {
                    if b.len() > 2000 {
                        // zeros
                        write!(s, "printf '%0{}d' '0", b.len()).unwrap();
                    } else {
                        s += "printf '";
                        for b in b {
                            write!(s, "\\{:03o}", b).unwrap();
                        }
                    }
                    s += if *out { "'; " } else { "' >&2; " };
                }
                Step::Close(out) => {
                    s += if *out { "exec 1>&-; " } else { "exec 2>&-; " };
                    open -= 1;
                }
            }
            if open == 0 {
                break;
            }
            if *pause {
                s += "echo >&9; read _ <&8; ";
                groups += 1;
            }
        }
        write!(s, "exec 1>&- 2>&-; echo >&9; exit {}", c.code).unwrap();
        *LINK.lock().unwrap() = Some((ctl[1] as i64, ack[0] as i64, groups));
        let mut c = Command::new("/bin/sh");
        c.arg("-c").arg(s);
        c
    }
    pub fn done() {
        *LINK.lock().unwrap() = None;
    }
}

/// The lines of what was written, without their ends.
fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut r = Vec::new();
    let mut from = 0;
    while from < b.len() {
        let end = b[from..].iter().position(|b| *b == b'\n').map_or(b.len(), |k| from + k);
        let cut = if end < b.len() && end > from && b[end - 1] == b'\r' { end - 1 } else { end };
        r.push(b[from..cut].to_vec());
        from = end + 1;
    }
    r
}
/// How many lines are complete.
fn complete(b: &[u8]) -> usize {
    b.iter().filter(|b| **b == b'\n').count()
}

/// A child writes pieces to its two outputs, closes them and ends.
/// params: steps, longest piece, whether characters of several bytes occur, what the child writes
/// first (0: nothing, 1: a long line, 2: many lines)
#[no_mangle]
pub extern "C" fn h_output() {
    let (steps, longest, wide) = (param(0), param(1), param(2) != 0);
    let mut c = Child { blocking: [true, true], ..Child::default() };
    let mut closed = [false, false];
    if param(3) != 0 {
        let b = if param(3) == 1 { vec![b'0'; 20000] } else { b"x\n".repeat(300) };
        c.steps.push((Step::Write(pick(2) == 0, b), pick(2) == 0));
    }
    for k in 0..pick(steps + 1) {
        let out = pick(2) == 0;
        let what = pick(longest + 1);
        if closed[!out as usize] {
            cut();
        }
        let step = if what == 0 {
            closed[!out as usize] = true;
            Step::Close(out)
        } else {
            let b = (0..what)
                .map(|_| {
                    if wide {
                        [b'a', b'\n', b'\r', 0xc3, 0xa9][pick(5)]
                    } else {
                        let b = u8();
                        assume(b < 128 && b != 0);
                        b
                    }
                })
                .collect();
            Step::Write(out, b)
        };
        let pause = k + 1 == steps || pick(2) == 0;
        c.steps.push((step, pause));
    }
    c.code = pick(2) as i32 * 3;
    *INTR.lock().unwrap() = pick(3) as i32;
    let cmd = calls::command(&c);
    *CHILD.lock().unwrap() = Some(c.clone());
    let seen: Mutex<Vec<(bool, String)>> = Mutex::new(Vec::new());
    let res = stdx::process::streaming_output(
        cmd,
        &mut |l| seen.lock().unwrap().push((true, l.to_string())),
        &mut |l| seen.lock().unwrap().push((false, l.to_string())),
    );
    let seen = seen.into_inner().unwrap();
    calls::done();
    check(res.is_ok(), 400);
    let res = res.unwrap();
    check(res.status.code() == Some(c.code), 401);

    let mut all = [Vec::new(), Vec::new()];
    // when each line was complete: the pauses before that
    let mut when: Vec<(usize, bool, usize)> = Vec::new();
    let mut pauses = 0;
    for (s, pause) in &c.steps {
        if let Step::Write(out, b) = s {
            let a = &mut all[!out as usize];
            let had = complete(a);
            a.extend_from_slice(b);
            for n in had..complete(a) {
                when.push((pauses, *out, n));
            }
        }
        pauses += *pause as usize;
    }
    check(res.stdout == all[0], 403);
    check(res.stderr == all[1], 404);
    for out in [true, false] {
        let want = lines(&all[!out as usize]);
        let got: Vec<&String> = seen.iter().filter(|s| s.0 == out).map(|s| &s.1).collect();
        check(got.len() == want.len(), 405);
        for (g, w) in got.iter().zip(&want) {
            check(g.as_bytes() == String::from_utf8_lossy(w).as_bytes(), 406);
        }
    }
    // lines are handed on when they are there; of many, the last ones
    if when.len() > 8 {
        when.drain(..when.len() - 8);
    }
    let place = |out: bool, n: usize| {
        let mut k = 0;
        for (i, s) in seen.iter().enumerate() {
            if s.0 == out {
                if k == n {
                    return i;
                }
                k += 1;
            }
        }
        seen.len()
    };
    for a in &when {
        for b in &when {
            if a.0 < b.0 {
                check(place(a.1, a.2) < place(b.1, b.2), 407);
                reach(407);
            }
        }
    }
    reach(400);
    observe(seen.len() as u64);
}
