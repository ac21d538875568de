//! Functions the executor models instead of interpreting: allocator shims, libc, panic entry
//! points and the harness interface.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp {
    Plain,
    RustAlloc,
    RustDealloc,
    RustRealloc,
    RustAllocZeroed,
    Nop0,      // returns 0 (all result registers zero)
    PanicFmt,  // last argument is the &Location
    PanicAny,
    Throw,  // a panic without a location we can read
    Abort,
    Malloc,
    Calloc,
    Free,
    Realloc,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    SxVar(u8),
    SxBytes,
    SxChoose,
    SxAssume,
    SxAssert,
    SxReach,
    SxObserve,
    SxParam,
    SxConcrete,
    SxIsSym,
    SxPrint,
    SxYield,
    SxSched,
    SxEnd,
    SxCut,
    Errno,
    Write,
    Writev,
    ClockGettime,
    Getrandom,
    Syscall,
    PthreadCreate,
    PthreadJoin,
    PthreadSelf,
    SchedYield,
    SchedGetaffinity,
    Sysconf,
    Nanosleep,
    Getcwd,
    KeyCreate,
    Enoent,
    Exit,
}
/// A harness may define system calls of its own (a file system, say), which then count.
pub fn classify_defined(n: &str) -> Sp {
    match classify(n) {
        Sp::Enoent | Sp::Write | Sp::Writev | Sp::Getcwd | Sp::Exit => Sp::Plain,
        Sp::Nop0 if !n.starts_with('_') => Sp::Plain,
        s => s,
    }
}
pub fn classify(n: &str) -> Sp {
    use Sp::*;
    if let Some(r) = n.strip_prefix("sx_") {
        return match r {
            "u1" => SxVar(1),
            "u8" => SxVar(8),
            "u16" => SxVar(16),
            "u32" => SxVar(32),
            "u64" => SxVar(64),
            "bytes" => SxBytes,
            "choose" => SxChoose,
            "assume" => SxAssume,
            "assert" => SxAssert,
            "reach" => SxReach,
            "observe" => SxObserve,
            "param" => SxParam,
            "concrete" => SxConcrete,
            "is_sym" => SxIsSym,
            "print" => SxPrint,
            "yield" => SxYield,
            "sched" => SxSched,
            "end" => SxEnd,
            "cut" => SxCut,
            _ => Plain,
        };
    }
    if n.starts_with("_R") {
        if n.ends_with("___rust_alloc") {
            return RustAlloc;
        }
        if n.ends_with("___rust_dealloc") {
            return RustDealloc;
        }
        if n.ends_with("___rust_realloc") {
            return RustRealloc;
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return RustAllocZeroed;
        }
        if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") {
            return Nop0;
        }
        if n.ends_with("4core9panicking9panic_fmt") || n.ends_with("4core9panicking18panic_nounwind_fmt") {
            return PanicFmt;
        }
        if n.starts_with("_RINvNtCs") && n.contains("_3std9panicking11begin_panic") {
            return PanicFmt;
        }
        if n.contains("9panicking") && n.contains("panic_with_hook")
            || n.contains("rust_begin_unwind")
        {
            return PanicAny;
        }
        if n.contains("5alloc5alloc18handle_alloc_error") {
            return Abort;
        }
        return Plain;
    }
    match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "free" => Free,
        "realloc" => Realloc,
        "posix_memalign" => PosixMemalign,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "abort" => Abort,
        "_Unwind_RaiseException" => Throw,
        "_Unwind_DeleteException" => Nop0,
        "_exit" | "exit" => Exit,
        "__errno_location" => Errno,
        "write" => Write,
        "writev" => Writev,
        "clock_gettime" => ClockGettime,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "pthread_create" => PthreadCreate,
        "pthread_join" => PthreadJoin,
        "pthread_self" | "gettid" => PthreadSelf,
        "sched_yield" => SchedYield,
        "sched_getaffinity" => SchedGetaffinity,
        "sysconf" => Sysconf,
        "clock_nanosleep" | "nanosleep" => Nanosleep,
        "getcwd" => Getcwd,
        "pthread_key_create" => KeyCreate,
        "open" | "open64" | "stat64" | "lstat64" | "statx" | "opendir" | "readlink" | "realpath" | "fstatat64"
        | "openat64" => Enoent,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_setname_np" | "pthread_detach" | "pthread_attr_init"
        | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setspecific" | "pthread_key_delete"
        | "sigaltstack" | "sigaction" | "mprotect" | "munmap" | "poll" | "pthread_getattr_np" | "dlsym" | "prctl"
        | "getpid" | "isatty" | "getauxval" | "close" | "fcntl" | "sigemptyset" | "sigaddset" | "unlink"
        | "pthread_attr_getstack" | "pthread_attr_getguardsize" => Nop0,
        _ => Plain,
    }
}
