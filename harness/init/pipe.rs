//! Standard input and output. Under the executor the system calls below answer; natively they are
//! pipes.
use std::sync::Mutex;
use sxrt::*;

#[derive(Default)]
struct Io {
    input: Vec<u8>,
    pos: usize,
    /// `then` comes once this has been put out
    until: Vec<u8>,
    then: Vec<u8>,
    out: Vec<u8>,
    bad: bool,
}
static IO: Mutex<Option<Io>> = Mutex::new(None);

impl Io {
    fn ready(&self) -> bool {
        self.until.is_empty() || self.out.windows(self.until.len()).any(|w| w == &self.until[..])
    }
}
pub fn start(input: Vec<u8>, until: &[u8], then: Vec<u8>, bad: bool) {
    *IO.lock().unwrap() = Some(Io { input, until: until.to_vec(), then, bad, ..Io::default() });
    #[cfg(not(target_arch = "riscv64"))]
    native::start();
}
pub fn finish() -> Vec<u8> {
    #[cfg(not(target_arch = "riscv64"))]
    native::finish();
    IO.lock().unwrap().as_ref().unwrap().out.clone()
}
/// the program gives up
fn gave_up() -> ! {
    let bad = match IO.lock() {
        Ok(g) => g.as_ref().map_or(false, |i| i.bad),
        Err(_) => false,
    };
    check(bad, 375);
    reach(375);
    end()
}

#[cfg(target_arch = "riscv64")]
mod calls {
    use super::*;
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        if fd != 0 {
            return 0;
        }
        loop {
            {
                let mut g = IO.lock().unwrap();
                let io = g.as_mut().unwrap();
                if io.pos == io.input.len() && !io.then.is_empty() && io.ready() {
                    io.input = std::mem::take(&mut io.then);
                    io.pos = 0;
                }
                let n = n.min(io.input.len() - io.pos);
                if n > 0 || io.then.is_empty() {
                    std::ptr::copy_nonoverlapping(io.input[io.pos..].as_ptr(), buf, n);
                    io.pos += n;
                    return n as isize;
                }
            }
            yield_now();
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        if fd == 1 {
            let mut g = IO.lock().unwrap();
            g.as_mut().unwrap().out.extend_from_slice(std::slice::from_raw_parts(buf, n));
        }
        n as isize
    }
    #[no_mangle]
    pub extern "C" fn setenv(_: *const u8, _: *const u8, _: i32) -> i32 {
        0
    }
    #[no_mangle]
    pub extern "C" fn exit(_: i32) -> ! {
        gave_up()
    }
}

#[cfg(not(target_arch = "riscv64"))]
mod native {
    use super::*;
    use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
    extern "C" {
        fn pipe(p: *mut i32) -> i32;
        fn dup(a: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(a: i32) -> i32;
        fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
        fn write(fd: i32, buf: *const u8, n: usize) -> isize;
        fn atexit(f: extern "C" fn()) -> i32;
    }
    static OLD: AtomicI32 = AtomicI32::new(-1);
    static DONE: Mutex<Option<std::thread::JoinHandle<()>>> = Mutex::new(None);
    extern "C" fn at_exit() {
        gave_up()
    }
    unsafe fn put(fd: i32, b: &[u8]) {
        let mut k = 0;
        while k < b.len() {
            let n = write(fd, b[k..].as_ptr(), b.len() - k);
            if n <= 0 {
                return;
            }
            k += n as usize;
        }
    }
    pub fn start() {
        if IO.lock().unwrap().as_ref().unwrap().bad {
            // lsp-server's reader panics if it finds the connection given up; the process ends anyway
            let main = std::thread::current().id();
            let hook = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |i| {
                if std::thread::current().id() == main {
                    hook(i)
                }
            }));
        }
        unsafe {
            atexit(at_exit);
            let (mut i, mut o) = ([0; 2], [0; 2]);
            pipe(i.as_mut_ptr());
            pipe(o.as_mut_ptr());
            OLD.store(dup(1), SeqCst);
            dup2(i[0], 0);
            dup2(o[1], 1);
            close(i[0]);
            close(o[1]);
            std::thread::spawn(move || {
                let (input, then) = {
                    let mut g = IO.lock().unwrap();
                    let io = g.as_mut().unwrap();
                    (std::mem::take(&mut io.input), std::mem::take(&mut io.then))
                };
                put(i[1], &input);
                while !IO.lock().unwrap().as_ref().unwrap().ready() {
                    std::thread::sleep(std::time::Duration::from_millis(2));
                }
                put(i[1], &then);
                close(i[1]);
            });
            *DONE.lock().unwrap() = Some(std::thread::spawn(move || {
                let mut b = [0; 4096];
                loop {
                    let n = read(o[0], b.as_mut_ptr(), b.len());
                    if n <= 0 {
                        return;
                    }
                    IO.lock().unwrap().as_mut().unwrap().out.extend_from_slice(&b[..n as usize]);
                }
            }));
        }
    }
    /// the old standard output again; the writing end of the pipe is closed by that
    pub fn finish() {
        unsafe {
            dup2(OLD.load(SeqCst), 1);
        }
        let t = DONE.lock().unwrap().take();
        t.unwrap().join().unwrap();
    }
}
