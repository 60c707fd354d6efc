//! Memory shared between a worker and the processes it runs simulations in.

use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};

pub const NFAULT: usize = 31;
pub const FAULTS: [&str; NFAULT] = [
    "preempt", "interrupt", "stop_for_good", "fair_switch",
    "sink_refuse", "sink_refuse_once", "sink_torn", "sink_panic", "sink_reenter",
    "io_short", "io_eintr", "io_eio", "io_enospc", "io_epipe", "io_eagain", "io_zero", "io_recovered",
    "slice_full", "alloc_fail_window", "alloc_fail_fired", "syscall_deny_window", "syscall_denied",
    "env_lie_window", "stack_poison", "stack_shift", "decode_error_call", "abandoned_then_called", "value_moved",
    "late_store", "blocked_switch", "marathon_run",
];
pub const F_PREEMPT: usize = 0;
pub const F_INTERRUPT: usize = 1;
pub const F_STALL: usize = 2;
pub const F_FAIR: usize = 3;
pub const F_REFUSE: usize = 4;
pub const F_REFUSE_ONCE: usize = 5;
pub const F_TORN: usize = 6;
pub const F_SINK_PANIC: usize = 7;
pub const F_REENTER: usize = 8;
pub const F_SHORT: usize = 9;
pub const F_EINTR: usize = 10;
pub const F_IO_KIND: usize = 11; // 11..=15
pub const F_RECOVERED: usize = 16;
pub const F_SLICE: usize = 17;
pub const F_ALLOC_WIN: usize = 18;
pub const F_ALLOC_FIRED: usize = 19;
pub const F_DENY_WIN: usize = 20;
pub const F_DENIED: usize = 21;
pub const F_LIE_WIN: usize = 22;
pub const F_POISON: usize = 23;
pub const F_SHIFT: usize = 24;
pub const F_DECERR: usize = 25;
pub const F_ABANDONED: usize = 26;
pub const F_MOVED: usize = 27;
pub const F_LATE: usize = 28;
pub const F_BLOCKED: usize = 29;
pub const F_MARATHON: usize = 30;

#[derive(Clone, Copy)]
pub struct Text {
    pub len: u32,
    pub b: [u8; 1024],
}

impl Text {
    pub const fn new() -> Text {
        Text { len: 0, b: [0; 1024] }
    }
    pub fn push(&mut self, s: &[u8]) {
        for &c in s {
            if (self.len as usize) < self.b.len() {
                self.b[self.len as usize] = c;
            }
            self.len += 1;
        }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..(self.len as usize).min(self.b.len())]
    }
    pub fn string(&self) -> String {
        String::from_utf8_lossy(self.bytes()).into_owned()
    }
    pub fn same(&self, o: &Text) -> bool {
        self.len == o.len && self.bytes() == o.bytes()
    }
    pub fn prefix_of(&self, o: &Text) -> bool {
        self.len <= o.len && o.bytes().starts_with(self.bytes())
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ u64::from(self.len);
        for &c in self.bytes() {
            h = (h ^ u64::from(c)).wrapping_mul(0x100_0000_01b3);
        }
        h
    }
}

impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.push(s.as_bytes());
        Ok(())
    }
}

/// How a call ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum End {
    Ok = 0,
    Err = 1,
    Panic = 2,
    SinkPanic = 3,
}

#[derive(Clone, Copy)]
pub struct Outcome {
    pub end: End,
    pub text: Text,
    /// accesses to memory that outlives the call (stand-alone calls only)
    pub touched: u32,
}

impl Outcome {
    pub const fn new() -> Outcome {
        Outcome { end: End::Ok, text: Text::new(), touched: 0 }
    }
    pub fn same(&self, o: &Outcome) -> bool {
        self.end == o.end && self.text.same(&o.text)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Class {
    None = 0,
    /// success reported although the sink refused
    Swallow,
    /// error, panic or different text although the sink accepted everything
    Spurious,
    /// what the failing sink accepted is not a prefix
    NotPrefix,
    /// the sink was offered more after it refused
    WroteAfter,
    /// a rendering after a failed one differs
    RetryDiff,
    /// a call's result differs from the same call made alone
    Mismatch,
    /// a call did not finish within its step bound
    NoProgress,
    /// a call panicked
    Panicked,
    /// the process died
    Crash,
    /// the process blocked outside the simulator's control
    Hang,
    /// a call asked the operating system for something
    OsCall,
}

pub const CLASSES: [Class; 12] = [
    Class::None, Class::Swallow, Class::Spurious, Class::NotPrefix, Class::WroteAfter, Class::RetryDiff,
    Class::Mismatch, Class::NoProgress, Class::Panicked, Class::Crash, Class::Hang, Class::OsCall,
];

impl Class {
    pub fn parse(s: &str) -> Class {
        *CLASSES.iter().find(|c| format!("{c:?}") == s).expect("class")
    }
    pub fn bit(self) -> u32 {
        1 << self as u32
    }
}

#[derive(Clone, Copy)]
pub struct TraceEv {
    pub tid: u8,
    pub kind: u8, // 0 preempt, 1 interrupt, 2 stall, 3 handoff
    pub step: u16,
    pub local: u32,
    pub arg: u32,
}

pub const MAXTRACE: usize = 1 << 18;

/// Result area of one simulated process.
pub struct RunShm {
    pub class: Class,
    pub tid: u32,
    pub step: u32,
    pub detail: Text,
    pub detail2: Text,
    /// where the run is, for crash reports
    pub at_tid: u32,
    pub at_step: u32,
    pub finished: u32,
    pub clock: AtomicU64,
    pub calls: u64,
    pub steps: u64,
    pub os_nr: i32,
    pub alloc_size: u64,
    pub log: u64,
    pub sched_hash: u64,
    pub nontrivial: u32,
    pub ntrace: u32,
    pub fired: [u64; NFAULT],
    pub outcome: Outcome,
    pub global_accesses: u64,
    pub trace: [TraceEv; MAXTRACE],
}

impl RunShm {
    pub fn reset(&mut self) {
        self.class = Class::None;
        self.tid = 0;
        self.step = 0;
        self.detail.len = 0;
        self.detail2.len = 0;
        self.at_tid = 0;
        self.at_step = 0;
        self.finished = 0;
        self.clock.store(0, Relaxed);
        self.calls = 0;
        self.steps = 0;
        self.os_nr = -1;
        self.alloc_size = 0;
        self.log = 0;
        self.sched_hash = 0;
        self.nontrivial = 0;
        self.ntrace = 0;
        self.fired = [0; NFAULT];
        self.global_accesses = 0;
    }
}

pub const MAXRUNS: usize = 1 << 21;
pub const POINTBITS: usize = 1 << 27;

/// Totals over all workers.
pub struct Totals {
    pub runs: AtomicU64,
    pub extra: AtomicU64,
    pub calls: AtomicU64,
    pub steps: AtomicU64,
    pub refs: AtomicU64,
    pub inconclusive: AtomicU64,
    pub harness_errors: AtomicU64,
    pub global_accesses: AtomicU64,
    pub fired: [AtomicU64; NFAULT],
    pub lowest_violation: AtomicU64,
    pub hashes: [AtomicU64; MAXRUNS],
    pub logs: [AtomicU64; MAXRUNS],
    /// one bit per (call, step inside it) at which a fault or switch fell
    pub points: [AtomicU64; POINTBITS / 64],
    /// chunks in which a run touched memory that outlives a call
    pub touched: [AtomicU8; MAXRUNS / 16 + 1],
    /// sum of the event-log hashes of the extra runs
    pub extra_log: AtomicU64,
    pub mnemonics: [AtomicU64; 1024],
}

impl Totals {
    pub fn point(&self, h: u64) {
        let b = (h as usize) % POINTBITS;
        self.points[b / 64].fetch_or(1 << (b % 64), Relaxed);
    }
    pub fn mnemonic(&self, h: u64) {
        let b = (h as usize) % (1024 * 64);
        self.mnemonics[b / 64].fetch_or(1 << (b % 64), Relaxed);
    }
}
