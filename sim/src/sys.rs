//! Thin layer over the operating system: processes, shared memory, futexes, and the seams through
//! which allocation, system calls, clocks, environment and randomness can be made to fail or lie.

#![allow(non_upper_case_globals)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

extern "C" {
    pub fn fork() -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn close(fd: c_int) -> c_int;
    fn poll(fds: *mut PollFd, n: u64, timeout_ms: c_int) -> c_int;
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn prctl(op: c_int, ...) -> c_int;
    fn sched_setaffinity(pid: c_int, size: usize, mask: *const u64) -> c_int;
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut SigAction) -> c_int;
    fn signal(sig: c_int, h: usize) -> usize;
    fn personality(p: u64) -> c_int;
    fn __errno_location() -> *mut c_int;
    fn execv(path: *const c_char, argv: *const *const c_char) -> c_int;
    static mut environ: *const *const c_char;
    static __data_start: u8;
    static __ehdr_start: u8;
    static _end: u8;
}

#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}

/// Writable globals of the program (for biasing preemptions to shared-memory accesses).
pub fn globals_range() -> (usize, usize) {
    (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize)
}

/// Address and size of this thread's copy of the program's thread-local variables.
pub fn tls_range() -> (usize, usize) {
    let (mut size, tp) = (0, unsafe {
        let p: usize;
        std::arch::asm!("mov {}, fs:0", out(reg) p);
        p
    });
    unsafe {
        let e = std::ptr::addr_of!(__ehdr_start).cast::<u8>();
        let ph = e.add(e.add(32).cast::<u64>().read() as usize);
        let (len, n) = (e.add(54).cast::<u16>().read(), e.add(56).cast::<u16>().read());
        for i in 0..n {
            let p = ph.add(usize::from(i) * usize::from(len));
            if p.cast::<u32>().read() == 7 {
                let align = (p.add(48).cast::<u64>().read() as usize).max(1);
                size = (p.add(40).cast::<u64>().read() as usize).next_multiple_of(align);
            }
        }
    }
    (tp - size, size)
}

pub fn shared<T>() -> &'static mut T {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        &mut *p.cast::<T>()
    }
}

pub fn pin(core: usize) {
    let mask = 1u64 << (core % 64);
    unsafe {
        sched_setaffinity(0, 8, &mask);
    }
}

/// The system call itself; a negative result is an error number.
unsafe fn raw(nr: c_long, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") nr as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        out("rcx") _, out("r11") _,
    );
    r
}

unsafe fn returned(r: isize) -> c_long {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r as c_long
}

pub fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe {
        raw(202, [a.as_ptr() as usize, 128, val as usize, 0, 0, 0]);
    }
}

pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        raw(202, [a.as_ptr() as usize, 129, 1, 0, 0, 0]);
    }
}

/// Everything std asks the system for directly.  A call of the library that waits for another thread
/// (std's locks do so with a futex) is a yield point: the others run, then it looks again.
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if nr == 202 && matches!(b & 0x7f, 0 | 9) && crate::engine::in_call() {
        os_request(202);
        if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
            return returned(-11);
        }
        crate::engine::blocked();
        return if d == 0 { 0 } else { returned(-110) };
    }
    returned(raw(nr, [a, b, c, d, e, f]))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::engine::in_call() {
        os_request(24);
        crate::engine::blocked();
        return 0;
    }
    returned(raw(24, [0; 6])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const i64, left: *mut i64) -> c_int {
    if crate::engine::in_call() {
        os_request(35);
        crate::engine::blocked();
        return 0;
    }
    returned(raw(35, [t as usize, left as usize, 0, 0, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, t: *const i64, left: *mut i64) -> c_int {
    if crate::engine::in_call() {
        os_request(230);
        crate::engine::blocked();
        return 0;
    }
    -raw(230, [id as usize, flags as usize, t as usize, left as usize, 0, 0]) as c_int
}

/// A harmless system call (getppid).
pub fn ask_os() -> c_long {
    unsafe { returned(raw(110, [0; 6])) }
}

pub enum Ended {
    Exit(i32),
    Signal(i32),
    Timeout,
}

/// Run `f` in a forked child.  It is killed when `progress` has not changed for `ms` milliseconds.
pub fn in_child(ms: u64, progress: &AtomicU64, f: impl FnOnce()) -> Ended {
    unsafe {
        let mut fds = [0 as c_int; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe failed");
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9 as c_long); // die with the worker
            close(fds[0]);
            f();
            _exit(0);
        }
        close(fds[1]);
        let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
        let mut last = progress.load(SeqCst);
        let mut idle = 0;
        let mut timed_out = false;
        while poll(&mut p, 1, 250) == 0 {
            let now = progress.load(SeqCst);
            if now == last {
                idle += 250;
            } else {
                idle = 0;
            }
            last = now;
            if idle >= ms {
                timed_out = true;
                kill(pid, 9);
                break;
            }
        }
        close(fds[0]);
        let mut st: c_int = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if timed_out {
            Ended::Timeout
        } else if st & 0x7f == 0 {
            Ended::Exit((st >> 8) & 0xff)
        } else {
            Ended::Signal(st & 0x7f)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Fault switches.  Everything is off unless a run switches it on inside a call's window.

/// Set while a call into the library is in progress in a run with a hostile environment.
pub static WINDOW: AtomicBool = AtomicBool::new(false);
pub static ALLOC_FAIL: AtomicU32 = AtomicU32::new(0); // 0 off, 1 every allocation, 2 every second
pub static ALLOC_TRIED: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_SIZE: AtomicU64 = AtomicU64::new(0);
pub static ENV_LIES: AtomicBool = AtomicBool::new(false);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static SYS_TRIED: AtomicU64 = AtomicU64::new(0);
pub static SYS_LAST: AtomicI32 = AtomicI32::new(-1);
pub static LIE_SEED: AtomicU64 = AtomicU64::new(0);
pub static TSC_READS: AtomicU64 = AtomicU64::new(0);

fn lie() -> u64 {
    let s = LIE_SEED.load(SeqCst);
    let n = crate::rng::mix(s);
    LIE_SEED.store(n, SeqCst);
    n
}

fn os_request(nr: c_int) {
    if !hostile() {
        return;
    }
    SYS_TRIED.fetch_add(1, SeqCst);
    SYS_LAST.store(nr, SeqCst);
}

/// Set in the processes that make the calls: clock, randomness, counter and environment are simulated
/// there, in a hostile window with seeded values, otherwise with fixed ones.
static WORLD: AtomicBool = AtomicBool::new(false);
const PLAIN_WORLD: u64 = 0x5eed;

static mut NO_ENV: [*const c_char; 1] = [std::ptr::null()];
struct Names([*const c_char; 8]);
unsafe impl Sync for Names {}
static ODD_ENV: Names = Names([
    c"RAKI=1".as_ptr(), c"RUST_LOG=trace".as_ptr(), c"LANG=tr_TR.UTF-8".as_ptr(), c"NO_COLOR=1".as_ptr(),
    c"COLUMNS=7".as_ptr(), c"TERM=dumb".as_ptr(), c"=".as_ptr(), std::ptr::null(),
]);

/// Replace the outside world of this process (a forked one that makes calls) by a simulated one.
pub fn enter_world(seed: Option<u64>) {
    LIE_SEED.store(seed.unwrap_or(PLAIN_WORLD), SeqCst);
    unsafe {
        environ = if seed.is_some() { ODD_ENV.0.as_ptr() } else { std::ptr::addr_of!(NO_ENV).cast() };
        let a = SigAction { handler: on_sigsegv as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(11, &a, std::ptr::null_mut());
        prctl(26, 2 as c_long); // trap reads of the time-stamp counter
    }
    WORLD.store(true, SeqCst);
}

/// Start over without address-space randomisation, so that a replay sees the addresses of the run it repeats.
pub fn fixed_layout() {
    const NO_RANDOMIZE: u64 = 0x0004_0000;
    unsafe {
        let now = personality(0xffff_ffff);
        if now == -1 || now as u64 & NO_RANDOMIZE != 0 || personality(now as u64 | NO_RANDOMIZE) == -1 {
            return;
        }
        let args: Vec<std::ffi::CString> =
            std::env::args().map(|a| std::ffi::CString::new(a).expect("argument")).collect();
        let mut p: Vec<*const c_char> = args.iter().map(|a| a.as_ptr()).collect();
        p.push(std::ptr::null());
        if let Ok(me) = std::env::current_exe() {
            let me = std::ffi::CString::new(me.to_string_lossy().as_bytes()).expect("path");
            execv(me.as_ptr(), p.as_ptr());
        }
    }
}

const STACKS: usize = 0x3000_0000_0000;
const STACK: usize = 1 << 20;

pub fn map_stack(k: usize) {
    let base = STACKS + k * 0x100_0000;
    // private, anonymous, fixed, not replacing
    let p = unsafe { mmap(base as *mut c_void, STACK, 3, 0x10_0022, -1, 0) };
    assert!(p as usize == base, "no memory for a stack");
}

/// Run `f` on stack number `k`, which is at the same address in every process.
pub fn on_stack(k: usize, f: &mut dyn FnMut()) {
    unsafe extern "C" fn go(f: *mut &mut dyn FnMut()) {
        (*f)();
    }
    unsafe {
        let base = STACKS + k * 0x100_0000;
        let mut f: &mut dyn FnMut() = f;
        std::arch::asm!(
            "mov r12, rsp",
            "mov rsp, {top}",
            "call {go}",
            "mov rsp, r12",
            top = in(reg) base + STACK - 64,
            go = in(reg) go as unsafe extern "C" fn(*mut &mut dyn FnMut()),
            in("rdi") std::ptr::addr_of_mut!(f),
            out("r12") _,
            clobber_abi("C"),
        );
    }
}

fn hostile() -> bool {
    WINDOW.load(SeqCst) && ENV_LIES.load(SeqCst)
}

const ARENA: usize = 0x2000_0000_0000;
const ARENA_LEN: usize = 1 << 30;
static ARENA_AT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    /// Allocations of this thread come from the arena, at addresses that depend on the run alone.
    pub static IN_RUN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn map_arena() {
    // private, anonymous, fixed, not replacing, not reserved
    let p = unsafe { mmap(ARENA as *mut c_void, ARENA_LEN, 3, 0x10_4022, -1, 0) };
    assert!(p as usize == ARENA, "no memory for the heap");
    ARENA_AT.store(ARENA as u64, SeqCst);
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let at = ARENA_AT.load(SeqCst) as usize;
    let p = at.next_multiple_of(l.align().max(16));
    if p + l.size() > ARENA + ARENA_LEN {
        return std::ptr::null_mut();
    }
    ARENA_AT.store((p + l.size()) as u64, SeqCst);
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    if p as usize + l.size() == ARENA_AT.load(SeqCst) as usize && IN_RUN.get() {
        ARENA_AT.store(p as u64, SeqCst);
    }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if WINDOW.load(SeqCst) {
            let mode = ALLOC_FAIL.load(SeqCst);
            if mode != 0 {
                let n = ALLOC_TRIED.fetch_add(1, SeqCst);
                ALLOC_SIZE.store(l.size() as u64, SeqCst);
                crate::engine::note_alloc(l.size());
                if mode == 1 || n % 2 == 0 {
                    return std::ptr::null_mut();
                }
            }
        }
        if IN_RUN.get() {
            return arena_alloc(l);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (ARENA..ARENA + ARENA_LEN).contains(&(p as usize)) {
            arena_free(p, l);
        } else {
            System.dealloc(p, l);
        }
    }
}

// Interposed libc entry points: outside a hostile window they behave as usual.

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if hostile() {
        ENV_READS.fetch_add(1, SeqCst);
        static VALUES: [&[u8]; 4] = [b"1\0", b"\0", b"0\0", b"true\0"];
        return match lie() % 5 {
            4 => std::ptr::null_mut(),
            i => VALUES[i as usize].as_ptr() as *mut c_char,
        };
    }
    if WORLD.load(SeqCst) {
        return std::ptr::null_mut();
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        let (mut i, s) = (0usize, *e);
        while *name.add(i) != 0 && *name.add(i) == *s.add(i) {
            i += 1;
        }
        if *name.add(i) == 0 && *s.add(i) == b'=' as c_char {
            return s.add(i + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if WORLD.load(SeqCst) {
        os_request(228);
        *ts = [(lie() >> 33) as i64, (lie() % 1_000_000_000) as i64];
        return 0;
    }
    returned(raw(228, [id as usize, ts as usize, 0, 0, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let v = if WORLD.load(SeqCst) {
        os_request(201);
        (lie() >> 33) as i64
    } else {
        let mut ts = [0i64; 2];
        raw(228, [0, ts.as_mut_ptr() as usize, 0, 0, 0, 0]);
        ts[0]
    };
    if !t.is_null() {
        *t = v;
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if WORLD.load(SeqCst) {
        os_request(318);
        for i in 0..len {
            *buf.add(i) = lie() as u8;
        }
        return len as isize;
    }
    returned(raw(318, [buf as usize, len, flags as usize, 0, 0, 0])) as isize
}

/// Wall clock for budgets only (never consulted inside a run).
pub fn now_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        raw(228, [1, ts.as_mut_ptr() as usize, 0, 0, 0, 0]);
    }
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

#[repr(C)]
struct BpfInsn {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}

unsafe extern "C" fn on_sigsys(_s: c_int, info: *const u8, uc: *mut u8) {
    let nr = *info.add(24).cast::<c_int>();
    if WINDOW.load(SeqCst) {
        SYS_TRIED.fetch_add(1, SeqCst);
        SYS_LAST.store(nr, SeqCst);
    }
    // rax := -ENOSYS
    *uc.add(40 + 13 * 8).cast::<i64>() = -38;
}

unsafe extern "C" fn on_sigsegv(_s: c_int, _info: *const u8, uc: *mut u8) {
    let rip = uc.add(40 + 16 * 8).cast::<u64>();
    let code = *rip as *const u8;
    let len = if *code == 0x0f && *code.add(1) == 0x31 {
        2
    } else if *code == 0x0f && *code.add(1) == 0x01 && *code.add(2) == 0xf9 {
        3
    } else {
        signal(11, 0);
        return;
    };
    TSC_READS.fetch_add(1, SeqCst);
    let v = lie();
    *uc.add(40 + 13 * 8).cast::<u64>() = v & 0xffff_ffff;
    *uc.add(40 + 12 * 8).cast::<u64>() = v >> 32;
    *rip += len;
}

/// From here on every system call of this process fails with ENOSYS (and is recorded when made
/// inside a call's window).
pub fn deny_os() -> bool {
    unsafe {
        let a = SigAction { handler: on_sigsys as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(31, &a, std::ptr::null_mut());
        let allow = 0x7fff_0000;
        let trap = 0x0003_0000;
        let f = [
            BpfInsn { code: 0x20, jt: 0, jf: 0, k: 0 }, // load nr
            BpfInsn { code: 0x15, jt: 2, jf: 0, k: 231 }, // exit_group
            BpfInsn { code: 0x15, jt: 1, jf: 0, k: 15 }, // rt_sigreturn
            BpfInsn { code: 0x06, jt: 0, jf: 0, k: trap },
            BpfInsn { code: 0x06, jt: 0, jf: 0, k: allow },
        ];
        #[repr(C)]
        struct Prog {
            len: u16,
            f: *const BpfInsn,
        }
        let p = Prog { len: f.len() as u16, f: f.as_ptr() };
        prctl(38, 1 as c_long, 0 as c_long, 0 as c_long, 0 as c_long) == 0
            && prctl(22, 2 as c_long, &p as *const Prog) == 0
    }
}
