//! One simulated run: decides, at every step of the library, who goes on, who is interrupted, who
//! stops, and what every sink, allocation and system call does; and judges every result.

use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::{self, Write as _};
use std::io;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed, Ordering::SeqCst};

use raki_glue::{self as glue, How, Value};

use crate::model::{Act, At, Hit, IoPlan, Judge, Op, Run, Sink, SinkFault, Step, View};
use crate::rng::{hash2, Rng};
use crate::shm::*;
use crate::sys;

/// A call is stuck when it has taken this many steps of its own.
pub const STEP_CAP: u32 = 400_000;
/// No thread runs longer than this while another could.
const FAIR: u32 = 50_000;
const MAXT: usize = 24;
/// Calls inside calls.
const DEPTH: u32 = 24;
/// Stores a thread can have outstanding.
const LATE: usize = 32;
const SLOTS: usize = 8;

pub type Refs = BTreeMap<u64, Outcome>;

struct Slot {
    val: Option<Value>,
    op: Op,
    users: u32,
}

pub struct Eng {
    run: &'static Run,
    refs: &'static Refs,
    mask: u32,
    shm: &'static mut RunShm,
    tot: Option<&'static Totals>,
    rng: Rng,
    /// for the environment's lies
    erng: Rng,
    state: [u8; MAXT],
    baton: [AtomicU32; MAXT],
    done: AtomicU32,
    hand: usize,
    stalls: u8,
    interrupts: u8,
    lo: usize,
    hi: usize,
    single: bool,
    slots: [Slot; SLOTS],
}

/// A store to a global that other threads need not have seen yet.
#[derive(Clone, Copy, Default)]
struct Store {
    at: usize,
    len: u8,
    old: [u8; 16],
    new: [u8; 16],
    held: bool,
}

pub struct Ctx {
    stores: [Store; LATE],
    nstores: usize,
    tid: u8,
    off: u32,
    local: u32,
    /// steps that belong to calls nested in the present one, or came before it
    base: u32,
    next: u32,
    due: u32,
    last_switch: u32,
    depth: u32,
    step: u16,
    ipre: usize,
    iint: usize,
    plan: *const Step,
    opclass: u64,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
}
static mut ENG: *mut Eng = std::ptr::null_mut();
static mut LO: usize = 0;
static mut HI: usize = 0;
/// Thread-local variables of the program: they outlive a call too.
static mut TLS_SIZE: usize = 0;

thread_local! {
    static TLS: Cell<usize> = const { Cell::new(0) };
    static TOUCHED: Cell<u32> = const { Cell::new(0) };
}

fn watch() {
    let (lo, hi) = sys::globals_range();
    let (at, size) = sys::tls_range();
    TLS.set(at);
    unsafe {
        LO = lo;
        HI = hi;
        TLS_SIZE = size;
    }
}
static mut WEAK: u64 = 0;

fn eng() -> &'static mut Eng {
    unsafe { &mut *ENG }
}

pub fn note_alloc(size: usize) {
    unsafe {
        if !ENG.is_null() {
            (*ENG).shm.alloc_size = size as u64;
            (*ENG).shm.fired[F_ALLOC_FIRED] += 1;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Yield points: called by the instrumented library.

#[inline(always)]
fn hook(addr: usize) {
    let p = CTX.with(Cell::get);
    let lasting = addr != 0 && unsafe { (addr >= LO && addr < HI) || addr.wrapping_sub(TLS.get()) < TLS_SIZE };
    if p.is_null() {
        if lasting {
            TOUCHED.set(TOUCHED.get().saturating_add(1));
        }
        return;
    }
    let c = unsafe { &mut *p };
    if c.off > 0 {
        return;
    }
    c.local += 1;
    let global = lasting;
    if c.local >= c.next || global {
        slow(p, global);
    }
}

/// When set, whatever lies below the library's stack frame is overwritten at every basic block.
static mut SCRUB: u64 = 0;
static mut SCRUB_WITH: u64 = 0;

extern "C" fn block() {
    unsafe {
        if SCRUB != 0 {
            SCRUB_WITH = SCRUB_WITH.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
        }
    }
    hook(0);
}

#[unsafe(naked)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    std::arch::naked_asm!(
        "sub rsp, 8",
        "call {block}",
        "add rsp, 8",
        "cmp qword ptr [rip + {on}], 0",
        "je 2f",
        "mov rax, [rip + {with}]",
        "lea rdi, [rsp - 512]",
        "mov ecx, 64",
        "rep stosq",
        "2: ret",
        block = sym block,
        on = sym SCRUB,
        with = sym SCRUB_WITH,
    )
}

macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(addr: usize) {
            hook(addr);
        }
    )* };
}
accesses!(__tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_vptr_read);

macro_rules! writes {
    ($($n:ident $len:literal)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(addr: usize) {
            hook(addr);
            will_store(addr, $len);
        }
    )* };
}
writes!(__tsan_write1 1 __tsan_write2 2 __tsan_write4 4 __tsan_write8 8 __tsan_write16 16
    __tsan_unaligned_write2 2 __tsan_unaligned_write4 4 __tsan_unaligned_write8 8 __tsan_unaligned_write16 16);

// Late stores.  When a thread is switched away some of its stores are taken back, and put again when it
// goes on, as if others had not seen them yet.  Two kinds of machine, drawn with the run: on one, any of the plain
// and relaxed stores since the last release operation are late; on the other stores stay in order, but
// the latest ones, releases included, are late unless a read-modify-write or a SeqCst operation followed.

fn in_order() -> bool {
    unsafe { WEAK & 2 != 0 }
}

#[inline(always)]
fn will_store(addr: usize, len: u8) {
    if unsafe { WEAK != 0 } && is_global(addr) {
        log_store(addr, len);
    }
}

fn this_ctx() -> Option<&'static mut Ctx> {
    let p = CTX.with(Cell::get);
    unsafe { p.as_mut() }.filter(|c| c.off == 0)
}

#[cold]
fn log_store(addr: usize, len: u8) {
    let Some(c) = this_ctx() else { return };
    if !in_order() && c.stores[..c.nstores].iter().any(|s| s.at == addr && s.len == len) {
        return;
    }
    if c.nstores == LATE {
        c.stores.copy_within(1.., 0);
        c.nstores -= 1;
    }
    let mut s = Store { at: addr, len, ..Store::default() };
    unsafe { std::ptr::copy_nonoverlapping(addr as *const u8, s.old.as_mut_ptr(), usize::from(len)) };
    c.stores[c.nstores] = s;
    c.nstores += 1;
}

/// Everything stored so far is visible from here on.
#[inline(always)]
fn released(mo: i32) {
    if unsafe { WEAK != 0 } && mo >= if in_order() { 5 } else { 3 } {
        if let Some(c) = this_ctx() {
            c.nstores = 0;
        }
    }
}

/// A read-modify-write acts on memory itself.
#[inline(always)]
fn rmw(addr: usize, mo: i32) {
    released(if in_order() { 5 } else { mo });
    if unsafe { WEAK != 0 } {
        if let Some(c) = this_ctx() {
            let mut k = 0;
            for i in 0..c.nstores {
                if c.stores[i].at != addr {
                    c.stores[k] = c.stores[i];
                    k += 1;
                }
            }
            c.nstores = k;
        }
    }
}

fn hold_back(e: &mut Eng, c: &mut Ctx) {
    let mut k = 0;
    let cut = hash2(e.run.env.weak, u64::from(c.local) << 16 | u64::from(c.step)) % (c.nstores as u64 + 1);
    for i in (0..c.nstores).rev() {
        let s = &mut c.stores[i];
        let h = hash2(e.run.env.weak, hash2(u64::from(c.local) << 16 | u64::from(c.step), (s.at - e.lo) as u64 ^ u64::from(c.tid) << 40));
        s.held = if in_order() { i as u64 >= cut } else { h % 3 != 0 };
        if s.held {
            unsafe {
                std::ptr::copy_nonoverlapping(s.at as *const u8, s.new.as_mut_ptr(), usize::from(s.len));
                std::ptr::copy_nonoverlapping(s.old.as_ptr(), s.at as *mut u8, usize::from(s.len));
            }
            e.shm.fired[F_LATE] += 1;
        }
    }
    for i in 0..c.nstores {
        if c.stores[i].held {
            c.stores[k] = c.stores[i];
            k += 1;
        }
    }
    c.nstores = k;
}

fn put_again(c: &mut Ctx) {
    for i in 0..c.nstores {
        let s = &mut c.stores[i];
        unsafe {
            std::ptr::copy_nonoverlapping(s.at as *const u8, s.old.as_mut_ptr(), usize::from(s.len));
            std::ptr::copy_nonoverlapping(s.new.as_ptr(), s.at as *mut u8, usize::from(s.len));
        }
    }
}

pub fn in_call() -> bool {
    this_ctx().is_some()
}

/// The call waits for another thread: let the others run.
pub fn blocked() {
    let p = CTX.with(Cell::get);
    let Some(c) = this_ctx() else { return };
    c.local += 200;
    eng().shm.fired[F_BLOCKED] += 1;
    slow(p, false);
    if c.last_switch != c.local {
        c.last_switch = c.local;
        fair(p);
        set_next(c);
    }
}

#[no_mangle]
pub extern "C" fn __tsan_vptr_update(addr: usize, _new: usize) {
    hook(addr);
    will_store(addr, 8);
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $cas:ident, $($n:ident $op:ident),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _mo: i32) -> $t {
            hook(p as usize);
            <$a>::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, mo: i32) {
            hook(p as usize);
            released(mo);
            if mo < if in_order() { 5 } else { 3 } {
                will_store(p as usize, std::mem::size_of::<$t>() as u8);
            }
            <$a>::from_ptr(p).store(v, SeqCst);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, mo: i32) -> $t {
            hook(p as usize);
            rmw(p as usize, mo);
            <$a>::from_ptr(p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, mo: i32, _fail: i32) -> $t {
            hook(p as usize);
            rmw(p as usize, mo);
            match <$a>::from_ptr(p).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $n(p: *mut $t, v: $t, mo: i32) -> $t {
                hook(p as usize);
                rmw(p as usize, mo);
                <$a>::from_ptr(p).$op(v, SeqCst)
            }
        )*
    };
}
use std::sync::atomic::{AtomicU16, AtomicU64, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_compare_exchange_val,
    __tsan_atomic8_fetch_add fetch_add, __tsan_atomic8_fetch_sub fetch_sub, __tsan_atomic8_fetch_and fetch_and,
    __tsan_atomic8_fetch_or fetch_or, __tsan_atomic8_fetch_xor fetch_xor, __tsan_atomic8_fetch_nand fetch_nand);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_compare_exchange_val,
    __tsan_atomic16_fetch_add fetch_add, __tsan_atomic16_fetch_sub fetch_sub, __tsan_atomic16_fetch_and fetch_and,
    __tsan_atomic16_fetch_or fetch_or, __tsan_atomic16_fetch_xor fetch_xor, __tsan_atomic16_fetch_nand fetch_nand);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_compare_exchange_val,
    __tsan_atomic32_fetch_add fetch_add, __tsan_atomic32_fetch_sub fetch_sub, __tsan_atomic32_fetch_and fetch_and,
    __tsan_atomic32_fetch_or fetch_or, __tsan_atomic32_fetch_xor fetch_xor, __tsan_atomic32_fetch_nand fetch_nand);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_compare_exchange_val,
    __tsan_atomic64_fetch_add fetch_add, __tsan_atomic64_fetch_sub fetch_sub, __tsan_atomic64_fetch_and fetch_and,
    __tsan_atomic64_fetch_or fetch_or, __tsan_atomic64_fetch_xor fetch_xor, __tsan_atomic64_fetch_nand fetch_nand);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    hook(0);
    released(mo);
}

#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {
    hook(0);
}

fn is_global(a: usize) -> bool {
    unsafe { a >= LO && a < HI }
}

/// Block copies go word by word when a global is involved: another caller may see half of one.
unsafe fn copy(d: *mut u8, s: *const u8, n: usize, back: bool) {
    let shared = is_global(d as usize) || is_global(s as usize);
    if !shared {
        hook(0);
        std::ptr::copy(s, d, n);
        return;
    }
    let at = if is_global(d as usize) { d as usize } else { s as usize };
    let words = n.div_ceil(8);
    for k in 0..words {
        let i = if back { words - 1 - k } else { k } * 8;
        hook(at);
        will_store(d as usize + i, (n - i).min(8) as u8);
        std::ptr::copy(s.add(i), d.add(i), (n - i).min(8));
    }
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    copy(d, s, n, false);
    d
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    copy(d, s, n, (s as usize) < (d as usize));
    d
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    if is_global(d as usize) {
        for i in (0..n).step_by(8) {
            hook(d as usize);
            will_store(d as usize + i, (n - i).min(8) as u8);
            std::ptr::write_bytes(d.add(i), v as u8, (n - i).min(8));
        }
    } else {
        hook(0);
        std::ptr::write_bytes(d, v as u8, n);
    }
    d
}

#[cold]
#[inline(never)]
fn slow(p: *mut Ctx, global: bool) {
    let c = unsafe { &mut *p };
    let e = eng();
    e.shm.clock.fetch_add(1, Relaxed);
    if c.local - c.base >= STEP_CAP {
        let mut t = Text::new();
        let _ = write!(t, "call still not finished after {STEP_CAP} of its own steps");
        violate(Class::NoProgress, c.tid, c.step, &t, &Text::new());
        finish_process(4);
    }
    if global {
        e.shm.global_accesses += 1;
    }
    if e.run.dynamic.on {
        let d = &e.run.dynamic;
        if c.local >= c.due || (global && e.rng.pct(u64::from(d.p_global))) {
            c.due = draw_due(e, c.local);
            set_next(c);
            decide(p);
        } else if c.local - c.last_switch >= FAIR {
            c.last_switch = c.local;
            fair(p);
        }
    } else {
        let st = unsafe { &*c.plan };
        if st.stall == Some(c.local) && others(e, c.tid) > 0 {
            do_stall(p);
        }
        while c.ipre < st.preempt.len() && st.preempt[c.ipre].0 < c.local {
            c.ipre += 1;
        }
        while c.iint < st.interrupt.len() && st.interrupt[c.iint].0 < c.local {
            c.iint += 1;
        }
        if c.ipre < st.preempt.len() && st.preempt[c.ipre].0 == c.local {
            let to = st.preempt[c.ipre].1;
            c.ipre += 1;
            set_next(c);
            if usize::from(to) < MAXT && to != c.tid && e.state[usize::from(to)] == 0 {
                do_preempt(p, to, F_PREEMPT);
            }
        } else if c.iint < st.interrupt.len() && st.interrupt[c.iint].0 == c.local {
            let op = st.interrupt[c.iint].1;
            c.iint += 1;
            set_next(c);
            do_interrupt(p, op, 0);
        } else if c.local - c.last_switch >= FAIR {
            c.last_switch = c.local;
            fair(p);
        }
    }
    set_next(unsafe { &mut *p });
}

fn draw_due(e: &mut Eng, local: u32) -> u32 {
    match e.run.dynamic.mean {
        0 => u32::MAX,
        m => local.saturating_add(e.rng.gap(u64::from(m)).min(1 << 30) as u32),
    }
}

fn set_next(c: &mut Ctx) {
    let e = eng();
    let mut n = c.last_switch.saturating_add(FAIR).min(c.base + STEP_CAP);
    if e.run.dynamic.on {
        n = n.min(c.due);
    } else if !c.plan.is_null() {
        let st = unsafe { &*c.plan };
        if c.ipre < st.preempt.len() {
            n = n.min(st.preempt[c.ipre].0);
        }
        if c.iint < st.interrupt.len() {
            n = n.min(st.interrupt[c.iint].0);
        }
        if let Some(l) = st.stall {
            if l > c.local {
                n = n.min(l);
            }
        }
    }
    c.next = n.max(c.local + 1);
}

fn others(e: &Eng, tid: u8) -> usize {
    (0..e.run.threads.len()).filter(|&t| t != usize::from(tid) && e.state[t] == 0).count()
}

fn pick_other(e: &mut Eng, tid: u8) -> Option<u8> {
    let n = others(e, tid);
    if n == 0 {
        return None;
    }
    let k = e.rng.below(n as u64) as usize;
    (0..e.run.threads.len()).filter(|&t| t != usize::from(tid) && e.state[t] == 0).nth(k).map(|t| t as u8)
}

fn record(kind: u8, c: &Ctx, arg: u32) {
    let e = eng();
    let h = hash2(
        u64::from(c.local) << 32 | u64::from(arg),
        u64::from(kind) << 32 | u64::from(c.tid) << 24 | u64::from(c.step),
    );
    e.shm.log = hash2(e.shm.log, h);
    e.shm.sched_hash = hash2(e.shm.sched_hash, h);
    e.shm.nontrivial = 1;
    if let Some(t) = e.tot {
        t.point(hash2(c.opclass, u64::from(c.local) << 8 | u64::from(kind)));
    }
    let n = e.shm.ntrace as usize;
    if n < MAXTRACE {
        e.shm.trace[n] = TraceEv { tid: c.tid, kind, step: c.step, local: c.local, arg };
        e.shm.ntrace += 1;
    }
}

fn decide(p: *mut Ctx) {
    let c = unsafe { &mut *p };
    let e = eng();
    let d = e.run.dynamic;
    let n = others(e, c.tid);
    let wp = if n > 0 { u64::from(d.w_preempt) } else { 0 };
    let deepest = if d.seed % 8 == 3 { DEPTH } else { 9 };
    let wi = if e.interrupts < d.max_interrupt && c.depth < deepest && !e.run.intr_pool.is_empty() {
        u64::from(d.w_interrupt)
    } else {
        0
    };
    let ws = if n > 0 && e.stalls < d.max_stall { u64::from(d.w_stall) } else { 0 };
    if wp + wi + ws == 0 {
        return;
    }
    let r = e.rng.below(wp + wi + ws);
    if r < wp {
        if let Some(to) = pick_other(e, c.tid) {
            do_preempt(p, to, F_PREEMPT);
        }
    } else if r < wp + wi {
        e.interrupts += 1;
        let i = e.rng.below(e.run.intr_pool.len() as u64) as usize;
        let op = e.run.intr_pool[i];
        do_interrupt(p, op, i as u32);
    } else {
        e.stalls += 1;
        do_stall(p);
    }
}

fn fair(p: *mut Ctx) {
    let c = unsafe { &mut *p };
    let e = eng();
    // round robin
    let n = e.run.threads.len();
    for k in 1..n {
        let t = (usize::from(c.tid) + k) % n;
        if e.state[t] == 0 {
            do_preempt(p, t as u8, F_FAIR);
            return;
        }
    }
}

fn do_preempt(p: *mut Ctx, to: u8, kind: usize) {
    let c = unsafe { &mut *p };
    let e = eng();
    record(0, c, u32::from(to));
    e.shm.fired[kind] += 1;
    hold_back(e, c);
    pass(e, to);
    wait(e, c.tid);
    put_again(c);
    c.last_switch = c.local;
}

fn do_interrupt(p: *mut Ctx, op: Op, idx: u32) {
    if std::thread::panicking() {
        return;
    }
    let c = unsafe { &mut *p };
    record(1, c, idx);
    eng().shm.fired[F_INTERRUPT] += 1;
    nested(p, op, &[]);
}

fn nested(p: *mut Ctx, op: Op, plan: &[SinkFault]) {
    let c = unsafe { &mut *p };
    c.depth += 1;
    let (outer, start) = (c.base, c.local);
    c.base = start;
    let mut o = Outcome::new();
    let mut cell = op.w;
    one_call(&op, &mut cell, plan, &mut o);
    judge(c, &op, &o, "nested call");
    c.base = outer + (c.local - start);
    c.depth -= 1;
}

fn do_stall(p: *mut Ctx) -> ! {
    let c = unsafe { &mut *p };
    let e = eng();
    record(2, c, 0);
    e.shm.fired[F_STALL] += 1;
    e.state[usize::from(c.tid)] = 2;
    leave(c);
    loop {
        wait(e, c.tid);
    }
}

fn pass(e: &Eng, to: u8) {
    e.baton[usize::from(to)].store(1, SeqCst);
    sys::futex_wake(&e.baton[usize::from(to)]);
}

fn wait(e: &Eng, tid: u8) {
    let b = &e.baton[usize::from(tid)];
    while b.swap(0, SeqCst) == 0 {
        sys::futex_wait(b, 0);
    }
    e.shm.clock.fetch_add(1, Relaxed);
}

/// The running thread ends or stops: someone else goes on, or the run is over.
fn leave(c: &mut Ctx) {
    let e = eng();
    let n = others(e, c.tid);
    if n == 0 {
        e.done.store(1, SeqCst);
        sys::futex_wake(&e.done);
        return;
    }
    let to = if e.run.dynamic.on {
        pick_other(e, c.tid)
    } else {
        let w = e.run.handoff.get(e.hand).copied();
        e.hand += 1;
        match w {
            Some(t) if usize::from(t) < e.run.threads.len() && t != c.tid && e.state[usize::from(t)] == 0 => Some(t),
            _ => (0..e.run.threads.len()).find(|&t| t != usize::from(c.tid) && e.state[t] == 0).map(|t| t as u8),
        }
    };
    let to = to.unwrap();
    let nt = e.shm.nontrivial;
    record(3, c, u32::from(to));
    e.shm.nontrivial = nt;
    pass(e, to);
}

// ---------------------------------------------------------------------------------------------
// Sinks

struct SinkPanic;

/// A `fmt::Write` sink with a fault plan.
struct FSink<'a> {
    text: Text,
    plan: &'a [SinkFault],
    calls: u32,
    refused: u32,
    dead: bool,
    after: bool,
}

impl<'a> FSink<'a> {
    fn new(plan: &'a [SinkFault]) -> Self {
        FSink { text: Text::new(), plan, calls: 0, refused: 0, dead: false, after: false }
    }
    fn clear(&mut self) {
        self.text.len = 0;
        self.calls = 0;
        self.refused = 0;
        self.dead = false;
        self.after = false;
    }
}

impl fmt::Write for FSink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        hook(0);
        let call = self.calls;
        self.calls += 1;
        if self.refused > 0 {
            self.after = true;
        }
        if self.dead {
            self.refused += 1;
            return Err(fmt::Error);
        }
        let start = self.text.len;
        for (i, f) in self.plan.iter().enumerate() {
            let (hit, keep) = match f.at {
                At::Call(k) => (k == call, 0),
                At::Byte(b) => (b >= start && b < start + s.len() as u32, b.wrapping_sub(start) as usize),
            };
            if !hit {
                continue;
            }
            let e = eng();
            e.shm.nontrivial = 1;
            e.shm.log = hash2(e.shm.log, hash2(u64::from(call) << 32 | keep as u64, 0x51));
            match f.hit {
                Hit::Recurse(op) => {
                    let p = CTX.with(Cell::get);
                    let n = self.plan.len();
                    if !p.is_null() && unsafe { (*p).depth } < DEPTH && unsafe { (*p).depth } as usize % n == i {
                        e.shm.fired[F_REENTER] += 1;
                        nested(p, op, self.plan);
                    }
                    continue;
                }
                Hit::Reenter(op) => {
                    e.shm.fired[F_REENTER] += 1;
                    let p = CTX.with(Cell::get);
                    if !p.is_null() && unsafe { (*p).depth } < DEPTH {
                        nested(p, op, &[]);
                    }
                    continue;
                }
                Hit::Err => {
                    e.shm.fired[F_REFUSE] += 1;
                    self.dead = true;
                }
                Hit::ErrOnce => {
                    if self.refused > 0 {
                        continue;
                    }
                    e.shm.fired[F_REFUSE_ONCE] += 1;
                }
                Hit::Panic => {
                    e.shm.fired[F_SINK_PANIC] += 1;
                }
            }
            if keep > 0 {
                e.shm.fired[F_TORN] += 1;
                self.text.push(&s.as_bytes()[..keep]);
            }
            self.refused += 1;
            if f.hit == Hit::Panic {
                self.dead = true;
                panic_any(SinkPanic);
            }
            return Err(fmt::Error);
        }
        self.text.push(s.as_bytes());
        Ok(())
    }
}

/// The simulated device behind an `io::Write`.
struct Dev<'a> {
    text: &'a mut Text,
    plan: IoPlan,
    rng: Rng,
    tripped: bool,
}

impl io::Write for Dev<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        hook(0);
        let e = eng();
        if self.plan.eintr > 0 && self.rng.pct(u64::from(self.plan.eintr)) {
            e.shm.fired[F_EINTR] += 1;
            e.shm.nontrivial = 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        let armed = !(self.tripped && self.plan.once);
        if armed && self.plan.hard != u32::MAX {
            let room = self.plan.hard.saturating_sub(self.text.len) as usize;
            if room == 0 {
                self.tripped = true;
                e.shm.fired[F_IO_KIND + usize::from(self.plan.kind)] += 1;
                e.shm.nontrivial = 1;
                e.shm.log = hash2(e.shm.log, 0x52 + u64::from(self.text.len));
                return match self.plan.kind {
                    0 => Err(io::Error::from_raw_os_error(5)),
                    1 => Err(io::ErrorKind::StorageFull.into()),
                    2 => Err(io::ErrorKind::BrokenPipe.into()),
                    3 => Err(io::ErrorKind::WouldBlock.into()),
                    _ => Ok(0),
                };
            }
            n = n.min(room);
        } else if self.tripped {
            e.shm.fired[F_RECOVERED] += 1;
        }
        if self.plan.short > 0 && n > 1 && self.rng.pct(u64::from(self.plan.short)) {
            n = self.rng.range(1, n as u64 - 1) as usize;
            e.shm.fired[F_SHORT] += 1;
            e.shm.nontrivial = 1;
        }
        self.text.push(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What the library's caller hands to `write!`: observes every refusal the library gets to see.
struct Shim<W> {
    w: W,
    refused: u32,
    after: bool,
}

impl<W: io::Write> io::Write for Shim<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.refused > 0 && !b.is_empty() {
            self.after = true;
        }
        match self.w.write(b) {
            Ok(0) if !b.is_empty() => {
                self.refused += 1;
                Ok(0)
            }
            Err(e) if e.kind() != io::ErrorKind::Interrupted => {
                self.refused += 1;
                Err(e)
            }
            r => r,
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.w.flush()
    }
}

// ---------------------------------------------------------------------------------------------
// Calls on the library

fn decode(cell: &u32, op: &Op) -> Value {
    if op.wide {
        glue::decode32(cell, op.rv64)
    } else {
        // the word sits at the same address a 32-bit one would
        let h: &u16 = unsafe { &*std::ptr::from_ref(cell).cast::<u16>() };
        glue::decode16(h, op.rv64)
    }
}

/// Without yield points: looking at a result, not calling for one.
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let p = CTX.with(Cell::get);
    if p.is_null() {
        return f();
    }
    unsafe { (*p).off += 1 };
    let r = f();
    unsafe { (*p).off -= 1 };
    r
}

fn how(view: View) -> How {
    match view {
        View::Debug => How::Debug,
        View::DebugAlt => How::DebugAlt,
        View::OpcDisp => How::OpcDisp,
        View::OpcDebug => How::OpcDebug,
        View::Padded => How::Padded,
        View::Built => How::Disp,
        _ => How::Disp,
    }
}

/// Ask `view` of an already decoded value.
fn ask<W: fmt::Write>(op: &Op, cell: &u32, v: &Value, view: View, sink: &mut W, cap: &mut Text) -> fmt::Result {
    match view {
        View::Decode | View::TryFrom | View::Parts => {
            quiet(|| write!(cap, "{v:?}").unwrap());
            Ok(())
        }
        View::EqSelf => {
            let o = decode(cell, op);
            let same = glue::equal(&o, v);
            let _ = write!(cap, "equal={same}");
            Ok(())
        }
        View::EqIsa => {
            let o = decode(cell, &Op { rv64: !op.rv64, ..*op });
            let same = glue::equal(&o, v);
            let _ = write!(cap, "equal={same}");
            Ok(())
        }
        _ => glue::render(sink, how(view), v),
    }
}

fn call<W: fmt::Write>(op: &Op, cell: &u32, sink: &mut W, cap: &mut Text) -> fmt::Result {
    match op.view {
        View::Parts => {
            let p = if op.wide { glue::parts32(*cell, op.rv64) } else { glue::parts16(*cell as u16, op.rv64) };
            quiet(|| write!(cap, "{p:?}").unwrap());
            Ok(())
        }
        View::TryFrom => {
            let x = if *cell & 3 == 3 { *cell as usize } else { (*cell & 0xffff) as usize };
            let r = glue::try_from(x);
            quiet(|| write!(cap, "{r:?}").unwrap());
            Ok(())
        }
        _ => {
            let v = decode(cell, op);
            stale();
            match unsafe { ENG.as_mut() } {
                Some(e) if e.run.env.poison => Place::hold(v, e.erng.next(), |v| ask(op, cell, v, op.view, sink, cap)).1,
                _ => ask(op, cell, &v, op.view, sink, cap),
            }
        }
    }
}

fn ending(r: Result<fmt::Result, Box<dyn Any + Send>>) -> End {
    match r {
        Ok(Ok(())) => End::Ok,
        Ok(Err(_)) => End::Err,
        Err(p) if p.is::<SinkPanic>() => End::SinkPanic,
        Err(_) => End::Panic,
    }
}

/// Run `f` with the hostile environment of the run switched on.
fn window<R>(f: impl FnOnce() -> R) -> R {
    let e = unsafe { ENG.as_mut() };
    let Some(e) = e else { return f() };
    let env = &e.run.env;
    if env.alloc == 0 && !env.deny && !env.poison {
        return f();
    }
    if env.alloc > 0 {
        e.shm.fired[F_ALLOC_WIN] += 1;
        e.shm.nontrivial = 1;
    }
    if env.deny {
        e.shm.fired[F_DENY_WIN] += 1;
        e.shm.fired[F_LIE_WIN] += 1;
        e.shm.nontrivial = 1;
    }
    let mut shift = 0;
    if env.poison {
        e.shm.fired[F_POISON] += 1;
        stale();
        shift = e.erng.below(12);
        e.shm.fired[F_SHIFT] += 1;
        e.shm.nontrivial = 1;
    }
    let outer = sys::WINDOW.swap(true, SeqCst);
    let r = shifted(shift, f);
    sys::WINDOW.store(outer, SeqCst);
    r
}

/// A value at one of eight places in memory that differ in alignment.
#[repr(align(64))]
struct Place([u64; 64]);

impl Place {
    fn hold<R>(v: Value, k: u64, f: impl FnOnce(&Value) -> R) -> (Value, R) {
        if std::mem::size_of::<Value>() + 64 > 512 || std::mem::align_of::<Value>() > 8 {
            let r = f(&v);
            return (v, r);
        }
        let mut p = Place([k; 64]);
        unsafe {
            let at = p.0.as_mut_ptr().add((k % 8) as usize).cast::<Value>();
            at.write(v);
            // a panic in `f` leaves the value to nobody; it owns nothing
            let r = f(&*at);
            (at.read(), r)
        }
    }
}

/// Fill the unused stack with something else.
fn stale() {
    let Some(e) = (unsafe { ENG.as_mut() }) else { return };
    if e.run.env.poison {
        let x = e.erng.next();
        let b = e.erng.next() & 0xff;
        poison(*e.erng.pick(&[x, x, x, b * 0x0101_0101_0101_0101, 0, u64::MAX]), 6);
    }
}

#[inline(never)]
fn poison(pat: u64, depth: u32) -> u64 {
    let mut a = [pat; 512];
    std::hint::black_box(&mut a);
    if depth > 0 {
        a[0] ^= poison(pat.rotate_left(7), depth - 1);
    }
    std::hint::black_box(a[0])
}

/// Same call, other stack addresses.
#[inline(never)]
fn shifted<R>(k: u64, f: impl FnOnce() -> R) -> R {
    let mut f = Some(f);
    let mut out = None;
    shift_by(k, &mut || out = Some((f.take().unwrap())()));
    out.unwrap()
}

#[inline(never)]
fn shift_by(k: u64, f: &mut dyn FnMut()) {
    if k == 0 {
        f();
    } else {
        let mut a = [k; 13];
        std::hint::black_box(&mut a);
        shift_by(k - 1, f);
        std::hint::black_box(&mut a);
    }
}

/// One call with a `fmt` sink following `plan`; returns whether the sink refused anything.
fn one_call(op: &Op, cell: &mut u32, plan: &[SinkFault], o: &mut Outcome) -> bool {
    let mut s = FSink::new(plan);
    let mut cap = Text::new();
    let cell = std::hint::black_box(cell);
    let r = window(|| catch_unwind(AssertUnwindSafe(|| call(op, cell, &mut s, &mut cap))));
    unsafe {
        if let Some(e) = ENG.as_mut() {
            e.shm.calls += 1;
            e.shm.clock.fetch_add(1, Relaxed);
        }
    }
    o.end = ending(r);
    o.text = if op.view.renders() { s.text } else { cap };
    s.refused > 0
}

/// Is the library instrumented?  Counts the yield points of one call.
pub fn probe() -> u32 {
    let mut c = Ctx {
        stores: [Store::default(); LATE], nstores: 0,
        tid: 0, off: 0, local: 0, base: 0, next: u32::MAX, due: u32::MAX, last_switch: 0, depth: 0, step: 0,
        ipre: 0, iint: 0, plan: std::ptr::null(), opclass: 0,
    };
    CTX.with(|x| x.set(&mut c));
    let r = decode(&std::hint::black_box(0x0000_0033), &Op { w: 0x33, wide: true, rv64: true, view: View::Decode });
    CTX.with(|x| x.set(std::ptr::null_mut()));
    let _ = std::hint::black_box(r.is_ok());
    c.local
}

/// The reference: the call made alone in a fresh process.
pub fn solo(op: &Op, o: &mut Outcome) {
    sys::map_arena();
    sys::IN_RUN.set(true);
    sys::enter_world(None);
    sys::map_stack(0);
    sys::on_stack(0, &mut || {
        let mut cell = op.w;
        watch();
        one_call(op, &mut cell, &[], o);
    });
    o.touched = TOUCHED.get();
}

// ---------------------------------------------------------------------------------------------
// Judging

fn finish_process(code: i32) -> ! {
    unsafe {
        if let Some(e) = ENG.as_mut() {
            e.shm.fired[F_DENIED] = sys::SYS_TRIED.load(SeqCst);
        }
        sys::_exit(code)
    }
}

fn violate(class: Class, tid: u8, step: u16, a: &Text, b: &Text) {
    let e = eng();
    if e.mask & class.bit() == 0 {
        return;
    }
    e.shm.class = class;
    e.shm.tid = u32::from(tid);
    e.shm.step = u32::from(step);
    e.shm.detail = *a;
    e.shm.detail2 = *b;
    finish_process(3);
}

fn note(what: &str, op: &Op, end: End) -> Text {
    let mut t = Text::new();
    let _ = write!(
        t,
        "{what} {:x}/{}/{}/{:?} ended {end:?}: ",
        op.w, if op.wide { "u32" } else { "u16" }, if op.rv64 { "rv64" } else { "rv32" }, op.view
    );
    t
}

/// Compare a call's result with the reference.
fn judge(c: &Ctx, op: &Op, o: &Outcome, what: &str) {
    let e = eng();
    e.shm.log = hash2(e.shm.log, o.text.hash() ^ o.end as u64);
    if e.run.env.deny {
        let n = sys::SYS_TRIED.load(SeqCst);
        if n > 0 {
            e.shm.os_nr = sys::SYS_LAST.load(SeqCst);
            let mut t = note(what, op, o.end);
            let _ = write!(t, "asked the operating system {n} time(s), last request {}", e.shm.os_nr);
            sys::SYS_TRIED.store(0, SeqCst);
            violate(Class::OsCall, c.tid, c.step, &t, &Text::new());
        }
    }
    if o.end == End::Panic {
        let t = note(what, op, o.end);
        violate(Class::Panicked, c.tid, c.step, &t, &o.text);
    }
    if let (Some(t), View::OpcDisp, End::Ok) = (e.tot, op.view, o.end) {
        t.mnemonic(o.text.hash());
    }
    let Some(r) = e.refs.get(&op.key()) else { return };
    if !o.same(r) {
        let mut a = note(what, op, o.end);
        a.push(o.text.bytes());
        let mut b = note("alone it", op, r.end);
        b.push(r.text.bytes());
        violate(Class::Mismatch, c.tid, c.step, &a, &b);
    }
}

fn opclass(op: &Op) -> u64 {
    let k = if op.wide { op.w & 0xfe00_707f } else { op.w & 0xec03 };
    Op { w: k, ..*op }.key()
}

fn step(p: *mut Ctx, cells: &mut [u32], idx: usize, st: &'static Step) {
    let c = unsafe { &mut *p };
    let e = eng();
    // time left until the next seeded decision carries over
    let left = c.due.saturating_sub(c.local);
    e.shm.steps += u64::from(c.local);
    c.local = 0;
    c.base = 0;
    c.last_switch = 0;
    c.due = if e.run.dynamic.mean == 0 { u32::MAX } else { left.max(1) };
    c.ipre = 0;
    c.iint = 0;
    c.step = idx as u16;
    c.plan = st;
    e.shm.at_tid = u32::from(c.tid);
    e.shm.at_step = idx as u32;
    set_next(c);
    if e.run.judge == Judge::Sinks {
        s_step(c, st);
        return;
    }
    let empty: &[SinkFault] = &[];
    let plan = if let Sink::Faults(f) = &st.sink { f.as_slice() } else { empty };
    let mut o = Outcome::new();
    match &st.act {
        Act::Call(op) => {
            begin(c, op);
            let cell = &mut cells[idx % 2];
            *cell = op.w;
            let refused = one_call(op, cell, plan, &mut o);
            if e.stalls > 0 {
                e.shm.fired[F_ABANDONED] += 1;
            }
            if e.run.judge == Judge::Kept {
                return;
            }
            if !refused {
                judge(c, op, &o, "call");
            } else if o.end == End::Panic {
                let t = note("call with a failing sink", op, o.end);
                violate(Class::Panicked, c.tid, c.step, &t, &o.text);
            }
        }
        Act::Keep(op, k) => {
            begin(c, op);
            cells[0] = op.w;
            let cell = std::hint::black_box(&mut cells[0]);
            let v = catch_unwind(AssertUnwindSafe(|| decode(cell, op)));
            e.shm.calls += 1;
            e.shm.clock.fetch_add(1, Relaxed);
            cells[0] = !op.w;
            let s = &mut e.slots[usize::from(*k) % SLOTS];
            if let (Ok(v), 0) = (v, s.users) {
                // a value that is wrong from the start is another property's business
                let mut t = Text::new();
                quiet(|| write!(t, "{v:?}").unwrap());
                let want = e.refs.get(&Op { view: View::Decode, ..*op }.key());
                if e.run.judge == Judge::Kept && !want.is_some_and(|w| w.end == End::Ok && w.text.same(&t)) {
                    return;
                }
                if v.is_err() {
                    e.shm.fired[F_DECERR] += 1;
                }
                s.val = Some(v);
                s.op = *op;
            }
        }
        Act::Use(k, view) => {
            let s = &mut e.slots[usize::from(*k) % SLOTS];
            if s.val.is_none() {
                return;
            }
            let op = Op { view: *view, ..s.op };
            begin(c, &op);
            cells[1] = op.w;
            let mut sink = FSink::new(plan);
            let mut cap = Text::new();
            // even slots are used in place (by several threads at once), odd ones are moved out
            let held: Option<Value> = if k % 2 == 1 && s.users == 0 {
                e.shm.fired[F_MOVED] += 1;
                s.val.take()
            } else {
                None
            };
            s.users += 1;
            let cell = &cells[1];
            let mut go = |v: &Value| catch_unwind(AssertUnwindSafe(|| ask(&op, cell, v, *view, &mut sink, &mut cap)));
            let (held, r) = match held {
                Some(v) => {
                    let (v, r) = Place::hold(v, idx as u64 + u64::from(c.tid) * 3, go);
                    (Some(v), r)
                }
                None => {
                    let v: *const Value = s.val.as_ref().unwrap();
                    (None, go(unsafe { &*v }))
                }
            };
            e.shm.calls += 1;
            e.shm.clock.fetch_add(1, Relaxed);
            let s = &mut e.slots[usize::from(*k) % SLOTS];
            s.users -= 1;
            if held.is_some() {
                s.val = held;
            }
            o.end = ending(r);
            o.text = if view.renders() { sink.text } else { cap };
            if sink.refused == 0 && !matches!(view, View::Parts | View::TryFrom) {
                judge(c, &op, &o, "use of a kept value");
            }
        }
        Act::Session(ops) => {
            for op in ops {
                begin(c, op);
                cells[0] = op.w;
                one_call(op, &mut cells[0], empty, &mut o);
                judge(c, op, &o, "call");
            }
        }
    }
}

fn begin(c: &mut Ctx, op: &Op) {
    c.opclass = opclass(op);
    let e = eng();
    e.shm.sched_hash = hash2(e.shm.sched_hash, hash2(op.key(), u64::from(c.tid)));
}

// ---------------------------------------------------------------------------------------------
// Renderings into failing sinks (expected text from a rendering in the same process)

struct Seen {
    end: End,
    text: Text,
    refused: bool,
    after: bool,
}

/// Render `ops`, one per line when there are several, into one sink; stop at the first error.
fn render_fmt(ops: &[Op], vals: &[Value], plan: &[SinkFault], s: &mut FSink) -> End {
    let _ = plan;
    let many = ops.len() > 1;
    ending(catch_unwind(AssertUnwindSafe(|| {
        for (op, v) in ops.iter().zip(vals) {
            glue::render(s, how(op.view), v)?;
            if many {
                s.write_str("\n")?;
            }
        }
        Ok(())
    })))
}

fn io_all<W: io::Write>(ops: &[Op], vals: &[Value], s: &mut Shim<W>) -> Result<io::Result<()>, Box<dyn Any + Send>> {
    use io::Write as _;
    let many = ops.len() > 1;
    catch_unwind(AssertUnwindSafe(|| {
        for (op, v) in ops.iter().zip(vals) {
            glue::render_io(s, how(op.view), v)?;
            if many {
                s.write_all(b"\n")?;
            }
        }
        s.flush()
    }))
}

fn render_io(ops: &[Op], vals: &[Value], p: &IoPlan) -> Seen {
    let mut text = Text::new();
    let (r, refused, after);
    macro_rules! go {
        ($w:expr, $fin:expr) => {{
            let mut s = Shim { w: $w, refused: 0, after: false };
            r = io_all(ops, vals, &mut s);
            refused = s.refused > 0;
            after = s.after;
            #[allow(clippy::redundant_closure_call)]
            ($fin)(s.w);
        }};
    }
    let mut slice = [0u8; 1024];
    if p.mode == 3 {
        let cap = (p.hard as usize).min(slice.len());
        let mut used = 0;
        {
            let w: &mut [u8] = &mut slice[..cap];
            go!(w, |rest: &mut [u8]| used = cap - rest.len());
        }
        if refused {
            let e = eng();
            e.shm.fired[F_SLICE] += 1;
            e.shm.nontrivial = 1;
        }
        text.push(&slice[..used]);
    } else {
        let dev = Dev { text: &mut text, plan: *p, rng: Rng::new(p.seed), tripped: false };
        match p.mode {
            0 => go!(dev, drop),
            1 => go!(io::BufWriter::with_capacity(p.cap as usize, dev), |w: io::BufWriter<Dev>| drop(w.into_parts())),
            _ => go!(io::LineWriter::with_capacity(p.cap as usize, dev), |w: io::LineWriter<Dev>| {
                // forgetting keeps the buffer from being flushed on drop
                std::mem::forget(w);
            }),
        }
    }
    let flush_failed = matches!(&r, Ok(Err(_)));
    Seen {
        end: match r {
            Ok(Ok(())) => End::Ok,
            Ok(Err(_)) => End::Err,
            Err(_) => End::Panic,
        },
        text,
        refused: refused || (flush_failed && p.hard != u32::MAX),
        after,
    }
}

fn s_step(c: &mut Ctx, st: &Step) {
    let e = eng();
    let one;
    let ops: &[Op] = match &st.act {
        Act::Call(op) | Act::Keep(op, _) => {
            one = [*op];
            &one
        }
        Act::Session(v) => v,
        Act::Use(..) => return,
    };
    begin(c, &ops[0]);
    let mut vals: Vec<Value> = Vec::with_capacity(ops.len());
    for op in ops {
        // decoding itself is not judged here
        match catch_unwind(AssertUnwindSafe(|| decode(&op.w, op))) {
            Ok(mut v) => {
                if op.view == View::Built {
                    glue::rework(&mut v, op.w);
                }
                vals.push(v);
            }
            Err(_) => return,
        }
    }
    if vals.iter().any(Result::is_err) {
        e.shm.fired[F_DECERR] += 1;
    }
    let fresh = |c: &mut Ctx| {
        eng().shm.steps += u64::from(c.local);
        c.local = 0;
        c.base = 0;
        c.last_switch = 0;
        set_next(c);
        eng().shm.calls += 1;
        eng().shm.clock.fetch_add(1, Relaxed);
    };
    // what a sink that accepts everything gets
    let mut s = FSink::new(&[]);
    fresh(c);
    let end = render_fmt(ops, &vals, &[], &mut s);
    e.shm.log = hash2(e.shm.log, s.text.hash() ^ end as u64);
    if end != End::Ok {
        let mut t = note("rendering into a willing sink", &ops[0], end);
        t.push(s.text.bytes());
        violate(Class::Spurious, c.tid, c.step, &t, &Text::new());
        return;
    }
    let base = s.text;
    if let (Some(t), true) = (e.tot, ops.len() == 1 && ops[0].view == View::OpcDisp && vals[0].is_ok()) {
        t.mnemonic(base.hash());
    }
    let ncalls = s.calls;
    let single = |k: At, h: Hit| [SinkFault { at: k, hit: h }];
    match &st.sink {
        Sink::Plain => {
            fresh(c);
            retry(c, ops, &vals, &base, "second rendering");
        }
        Sink::Faults(f) => {
            let mut s = FSink::new(f);
            fresh(c);
            let end = render_fmt(ops, &vals, f, &mut s);
            let seen = Seen { end, text: s.text, refused: s.refused > 0, after: s.after };
            judge_seen(c, ops, &seen, &base);
            fresh(c);
            retry(c, ops, &vals, &base, "rendering again after a failed one");
        }
        Sink::Sweep(once) => {
            let hit = if *once { Hit::ErrOnce } else { Hit::Err };
            for k in 0..ncalls {
                let f = single(At::Call(k), hit);
                let mut s = FSink::new(&f);
                s.clear();
                fresh(c);
                let end = render_fmt(ops, &vals, &f, &mut s);
                let seen = Seen { end, text: s.text, refused: s.refused > 0, after: s.after };
                judge_seen(c, ops, &seen, &base);
            }
            fresh(c);
            retry(c, ops, &vals, &base, "rendering again after failed ones");
        }
        Sink::Io(p) => {
            fresh(c);
            let seen = render_io(ops, &vals, p);
            judge_seen(c, ops, &seen, &base);
            fresh(c);
            retry(c, ops, &vals, &base, "rendering again after a failed one");
        }
    }
}

fn retry(c: &Ctx, ops: &[Op], vals: &[Value], base: &Text, what: &str) {
    let mut s = FSink::new(&[]);
    let end = render_fmt(ops, vals, &[], &mut s);
    if end != End::Ok || !s.text.same(base) {
        let mut t = note(what, &ops[0], end);
        t.push(s.text.bytes());
        violate(Class::RetryDiff, c.tid, c.step, &t, base);
    }
}

fn judge_seen(c: &Ctx, ops: &[Op], s: &Seen, base: &Text) {
    let e = eng();
    e.shm.log = hash2(e.shm.log, s.text.hash() ^ (s.end as u64) << 1 ^ u64::from(s.refused));
    e.shm.sched_hash = hash2(e.shm.sched_hash, u64::from(s.text.len) << 8 ^ s.end as u64);
    if let Some(t) = e.tot {
        t.point(hash2(opclass(&ops[0]), u64::from(s.text.len) << 8 | s.end as u64));
    }
    let mut t = note("rendering", &ops[0], s.end);
    t.push(s.text.bytes());
    if s.refused && s.end == End::Ok {
        violate(Class::Swallow, c.tid, c.step, &t, base);
    }
    if s.refused && s.end == End::Panic {
        violate(Class::Panicked, c.tid, c.step, &t, base);
    }
    if s.end == End::Panic || (!s.refused && (s.end != End::Ok || !s.text.same(base))) {
        violate(Class::Spurious, c.tid, c.step, &t, base);
    }
    if s.after {
        violate(Class::WroteAfter, c.tid, c.step, &t, base);
    }
    if !s.text.prefix_of(base) {
        violate(Class::NotPrefix, c.tid, c.step, &t, base);
    }
}

// ---------------------------------------------------------------------------------------------
// The process of one run

fn thread_main(tid: u8) {
    let e = eng();
    let mut c = Ctx {
        stores: [Store::default(); LATE], nstores: 0,
        tid, off: 0, local: 0, base: 0, next: u32::MAX, due: 0, last_switch: 0, depth: 0, step: 0,
        ipre: 0, iint: 0, plan: std::ptr::null(), opclass: 0,
    };
    if !e.single {
        wait(e, tid);
    }
    c.due = draw_due(e, 0);
    let p: *mut Ctx = &mut c;
    sys::IN_RUN.set(true);
    watch();
    CTX.with(|x| x.set(p));
    let mut cells = [0u32; 2];
    let steps: &'static [Step] = &e.run.threads[usize::from(tid)];
    for _ in 0..e.run.repeat {
        for (i, st) in steps.iter().enumerate() {
            step(p, &mut cells, i, st);
        }
    }
    CTX.with(|x| x.set(std::ptr::null_mut()));
    sys::IN_RUN.set(false);
    e.shm.steps += u64::from(unsafe { (*p).local });
    e.state[usize::from(tid)] = 1;
    leave(unsafe { &mut *p });
}

/// The failing allocator and the denied system calls must be seen to work before a run relies on them.
fn seams_live(alloc: bool, deny: bool) -> bool {
    let mut ok = true;
    sys::WINDOW.store(true, SeqCst);
    if alloc {
        let l = std::alloc::Layout::new::<[u64; 4]>();
        ok &= std::hint::black_box(unsafe { std::alloc::alloc(l) }).is_null();
    }
    if deny {
        ok &= sys::ask_os() == -1 && sys::SYS_TRIED.load(SeqCst) == 1;
    }
    sys::WINDOW.store(false, SeqCst);
    sys::ALLOC_TRIED.store(0, SeqCst);
    sys::SYS_TRIED.store(0, SeqCst);
    let s = &mut eng().shm;
    s.fired[F_ALLOC_FIRED] = 0;
    s.alloc_size = 0;
    ok
}

/// Body of the forked child; never returns.
pub fn child(run: &'static Run, refs: &'static Refs, mask: u32, shm: &'static mut RunShm, tot: Option<&'static Totals>) -> ! {
    sys::map_arena();
    std::panic::set_hook(Box::new(|_| {}));
    sys::IN_RUN.set(true);
    const Z: AtomicU32 = AtomicU32::new(0);
    let (lo, hi) = sys::globals_range();
    let n = run.threads.len();
    let e = Box::leak(Box::new(Eng {
        run, refs, mask, shm, tot,
        rng: Rng::new(run.dynamic.seed),
        erng: Rng::new(run.env.seed),
        state: [1; MAXT],
        baton: [Z; MAXT],
        done: AtomicU32::new(0),
        hand: 0, stalls: 0, interrupts: 0, lo, hi,
        single: n == 1,
        slots: std::array::from_fn(|_| Slot {
            val: None,
            op: Op { w: 0, wide: true, rv64: true, view: View::Disp },
            users: 0,
        }),
    }));
    for (k, s) in e.state[..n].iter_mut().enumerate() {
        *s = 0;
        sys::map_stack(k);
    }
    unsafe {
        ENG = e;
        LO = e.lo;
        HI = e.hi;
    }
    let env = run.env;
    unsafe {
        WEAK = env.weak;
    }
    if run.repeat > 1_000_000 {
        e.shm.fired[F_MARATHON] += 1;
    }
    if env.poison {
        unsafe {
            SCRUB = 1;
            SCRUB_WITH = env.seed;
        }
    }
    sys::enter_world(if env.deny { Some(env.seed) } else { None });
    if env.alloc > 0 {
        sys::ALLOC_FAIL.store(u32::from(env.alloc), SeqCst);
    }
    if env.deny {
        sys::ENV_LIES.store(true, SeqCst);
        if !sys::deny_os() {
            finish_process(7);
        }
    }
    if (env.alloc > 0 || env.deny) && !seams_live(env.alloc > 0, env.deny) {
        finish_process(8);
    }
    if n == 1 {
        sys::on_stack(0, &mut || thread_main(0));
    } else {
        for t in 0..n {
            std::thread::Builder::new().stack_size(64 << 10).spawn(move || sys::on_stack(t, &mut || thread_main(t as u8))).expect("thread");
        }
        pass(e, run.handoff.first().copied().filter(|t| usize::from(*t) < n && !run.dynamic.on).unwrap_or(0));
        if !run.dynamic.on {
            e.hand = 1;
        }
        while e.done.load(SeqCst) == 0 {
            sys::futex_wait(&e.done, 0);
        }
    }
    e.shm.finished = 1;
    finish_process(0)
}
