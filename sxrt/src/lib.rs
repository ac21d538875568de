//! Interface between a harness and whoever runs it. Under the symbolic executor (/verif/engine)
//! the `sx_*` symbols are intercepted; with feature `native` they read the concrete values of a
//! counterexample, so that the same harness replays against the natively compiled real code.
#![allow(clippy::missing_safety_doc)]
#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
pub use native::replay_main;

mod ext {
    extern "C" {
        pub fn sx_u1() -> u8;
        pub fn sx_u8() -> u8;
        pub fn sx_u16() -> u16;
        pub fn sx_u32() -> u32;
        pub fn sx_u64() -> u64;
        pub fn sx_bytes(p: *mut u8, n: usize);
        pub fn sx_choose(n: u32) -> u32;
        pub fn sx_concrete(v: u64) -> u64;
        pub fn sx_assume(c: u8);
        pub fn sx_assert(c: u8, code: u32);
        pub fn sx_reach(code: u32);
        pub fn sx_observe(v: u64);
        pub fn sx_param(i: u32) -> u64;
        pub fn sx_is_sym() -> u8;
        pub fn sx_print(p: *const u8, n: usize);
        pub fn sx_yield();
        pub fn sx_sched(n: u32);
        pub fn sx_end();
        pub fn sx_cut();
    }
}
/// A fresh symbolic boolean.
pub fn flag() -> bool {
    unsafe { ext::sx_u1() & 1 != 0 }
}
pub fn u8() -> u8 {
    unsafe { ext::sx_u8() }
}
pub fn u16() -> u16 {
    unsafe { ext::sx_u16() }
}
pub fn u32() -> u32 {
    unsafe { ext::sx_u32() }
}
pub fn u64() -> u64 {
    unsafe { ext::sx_u64() }
}
pub fn fill(b: &mut [u8]) {
    unsafe { ext::sx_bytes(b.as_mut_ptr(), b.len()) }
}
/// A symbolic value below `n` (n <= 256); the execution does not fork.
pub fn choose(n: usize) -> usize {
    unsafe { ext::sx_choose(n as u32) as usize }
}
/// Fork once per feasible value of `v`; afterwards it is a constant on each path.
pub fn concrete(v: usize) -> usize {
    unsafe { ext::sx_concrete(v as u64) as usize }
}
/// A value below `n`, one path each.
pub fn pick(n: usize) -> usize {
    concrete(choose(n))
}
/// Append an arbitrary character. One path per encoded length, each byte symbolic.
pub fn push_char(s: &mut String) {
    push_char_of(s, pick(4) + 1)
}
pub fn push_char_of(s: &mut String, len: usize) {
    let v = unsafe { s.as_mut_vec() };
    let k = v.len();
    v.resize(k + len, 0);
    let b = &mut v[k..];
    fill(b);
    match len {
        1 => assume(b[0] < 0x80),
        2 => assume(b[0] >= 0xc2 && b[0] <= 0xdf),
        3 => {
            assume(b[0] >= 0xe0 && b[0] <= 0xef);
            assume((b[0] != 0xe0) | (b[1] >= 0xa0));
            assume((b[0] != 0xed) | (b[1] < 0xa0));
        }
        _ => {
            assume(b[0] >= 0xf0 && b[0] <= 0xf4);
            assume((b[0] != 0xf0) | (b[1] >= 0x90));
            assume((b[0] != 0xf4) | (b[1] < 0x90));
        }
    }
    for x in &b[1..] {
        assume(*x >= 0x80 && *x < 0xc0);
    }
}
pub fn assume(c: bool) {
    unsafe { ext::sx_assume(c as u8) }
}
/// The property. `code` identifies the clause in reports.
pub fn check(c: bool, code: u32) {
    unsafe { ext::sx_assert(c as u8, code) }
}
/// Vacuity witness: some path must get here.
pub fn reach(code: u32) {
    unsafe { ext::sx_reach(code) }
}
/// Part of what the real code computed; on sampled paths the value under the solver's model is
/// compared with what the natively compiled code computes.
pub fn observe(v: u64) {
    unsafe { ext::sx_observe(v) }
}
pub fn observe_str(s: &str) {
    let mut h = 0u64;
    for b in s.bytes() {
        h = h.rotate_left(5) ^ b as u64;
    }
    observe(h);
    observe(s.len() as u64);
}
/// A bound taken from the command line.
pub fn param(i: u32) -> usize {
    unsafe { ext::sx_param(i) as usize }
}
pub fn is_sym() -> bool {
    unsafe { ext::sx_is_sym() != 0 }
}
pub fn print(s: &str) {
    unsafe { ext::sx_print(s.as_ptr(), s.len()) }
}
pub fn yield_now() {
    unsafe { ext::sx_yield() }
}
/// From here on let the scheduler fork at up to `n` choice points (a thread blocks or yields and
/// several can go on), and preempt a thread in front of an atomic operation up to `preempt` times.
pub fn sched(n: u32, preempt: u32) {
    unsafe { ext::sx_sched(n | preempt << 16) }
}
/// End this path normally (other threads are not waited for).
pub fn end() -> ! {
    unsafe { ext::sx_end() };
    loop {}
}
/// Drop this path: outside the stated bounds.
pub fn cut() -> ! {
    unsafe { ext::sx_cut() };
    loop {}
}

#[macro_export]
macro_rules! harnesses {
    ($($n:ident),* $(,)?) => {
        pub fn entries() -> Vec<(&'static str, extern "C" fn())> { vec![$((stringify!($n), $n as extern "C" fn())),*] }
    };
}
