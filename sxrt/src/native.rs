use std::cell::RefCell;
use std::sync::Mutex;
#[derive(Default)]
struct St {
    vals: Vec<(u32, u64)>,
    pos: usize,
    params: Vec<u64>,
    misaligned: bool,
}
static ST: Mutex<Option<St>> = Mutex::new(None);
thread_local!(static _T: RefCell<u8> = RefCell::new(0));
fn next(w: u32) -> u64 {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    let s = g.get_or_insert_with(Default::default);
    let v = match s.vals.get(s.pos) {
        Some(&(ww, v)) => {
            if ww != w && !s.misaligned {
                s.misaligned = true;
                eprintln!("replay: value {} has width {ww}, asked for {w}", s.pos);
            }
            v
        }
        None => 0,
    };
    s.pos += 1;
    v
}
fn leave(code: i32) -> ! {
    unsafe { _exit(code) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}
#[no_mangle]
extern "C" fn sx_u1() -> u8 { next(1) as u8 & 1 }
#[no_mangle]
extern "C" fn sx_u8() -> u8 { next(8) as u8 }
#[no_mangle]
extern "C" fn sx_u16() -> u16 { next(16) as u16 }
#[no_mangle]
extern "C" fn sx_u32() -> u32 { next(32) as u32 }
#[no_mangle]
extern "C" fn sx_u64() -> u64 { next(64) }
#[no_mangle]
unsafe extern "C" fn sx_bytes(p: *mut u8, n: usize) {
    for i in 0..n { *p.add(i) = next(8) as u8 }
}
#[no_mangle]
extern "C" fn sx_choose(n: u32) -> u32 {
    let v = next(8) as u32;
    if v >= n { leave(77) }
    v
}
#[no_mangle]
extern "C" fn sx_concrete(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn sx_assume(c: u8) {
    if c & 1 == 0 { eprintln!("SX assumption false"); leave(77) }
}
#[no_mangle]
extern "C" fn sx_assert(c: u8, code: u32) {
    if c & 1 == 0 { eprintln!("SX assert {code}"); leave(42) }
}
#[no_mangle]
extern "C" fn sx_reach(_: u32) {}
#[no_mangle]
extern "C" fn sx_observe(v: u64) { println!("OBS {v}") }
#[no_mangle]
extern "C" fn sx_param(i: u32) -> u64 {
    ST.lock().unwrap_or_else(|e| e.into_inner()).as_ref().and_then(|s| s.params.get(i as usize).copied()).unwrap_or(0)
}
#[no_mangle]
extern "C" fn sx_is_sym() -> u8 { 0 }
#[no_mangle]
unsafe extern "C" fn sx_print(p: *const u8, n: usize) {
    eprintln!("{}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
}
#[no_mangle]
extern "C" fn sx_yield() {
    // long enough for the others to finish; or, where a schedule is looked for, any time
    let us = match std::env::var("SX_JITTER") {
        Ok(v) if !SETTLED.load(std::sync::atomic::Ordering::Relaxed) => {
            let mut x: u64 = v.parse().unwrap_or(1);
            x = x.wrapping_mul(6364136223846793005).wrapping_add(YIELDS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as u64 * 1442695040888963407);
            (x >> 33) % 400
        }
        // (on a busy machine: longer)
        _ => 4000 * std::env::var("SX_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
    };
    std::thread::sleep(std::time::Duration::from_micros(us));
}
static YIELDS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[no_mangle]
extern "C" fn sx_sched(n: u32) {
    if n == 0 {
        SETTLED.store(true, std::sync::atomic::Ordering::Relaxed)
    }
}
/// no choices of the scheduler any more
static SETTLED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[no_mangle]
extern "C" fn sx_end() { leave(0) }
#[no_mangle]
extern "C" fn sx_cut() { leave(77) }

/// usage: replay ENTRY PARAMS VALS   with PARAMS = a,b,...  VALS = width:value,...
/// exit: 0 held, 42 assertion failed, 43 a thread panicked, 77 outside the assumptions
pub fn replay_main(entries: Vec<(&'static str, extern "C" fn())>) {
    let a: Vec<String> = std::env::args().collect();
    let params = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let vals = a[3]
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (w, v) = x.split_once(':').unwrap();
            (w.parse().unwrap(), v.parse().unwrap())
        })
        .collect();
    *ST.lock().unwrap() = Some(St { vals, pos: 0, params, misaligned: false });
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        hook(i);
        leave(43)
    }));
    let f = entries.iter().find(|e| e.0 == a[1]).unwrap_or_else(|| panic!("no entry {}", a[1])).1;
    f();
    leave(0)
}
