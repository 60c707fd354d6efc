//! Executes runs in forked processes, computes references, and minimises failing runs.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::engine::{self, Refs};
use crate::gen;
use crate::model::*;
use crate::rng::hash2;
use crate::shm::*;
use crate::sys::{self, Ended};

const IDLE_MS: u64 = 10_000;
const SOLO_MS: u64 = 3_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Clean,
    Violation(Class),
    Inconclusive,
    Harness(i32),
}

pub struct Exec {
    pub shm: &'static mut RunShm,
    pub tot: Option<&'static Totals>,
    pub refs: Refs,
    pub asked: BTreeMap<u64, bool>,
    pub solo_hangs: u32,
    pub nrefs: u64,
}

/// Text of the last violation.
pub struct Report {
    pub tid: u32,
    pub step: u32,
    pub what: String,
    pub log: u64,
}

impl Exec {
    pub fn new(tot: Option<&'static Totals>) -> Exec {
        let shm = sys::shared::<RunShm>();
        Exec { shm, tot, refs: BTreeMap::new(), asked: BTreeMap::new(), solo_hangs: 0, nrefs: 0 }
    }

    pub fn forget_refs(&mut self) {
        self.refs.clear();
        self.asked.clear();
    }

    /// Compute the stand-alone result of each call, each in a process of its own.
    pub fn need(&mut self, ops: &[Op]) {
        for op in ops {
            if self.asked.insert(op.key(), true).is_some() {
                continue;
            }
            if self.solo_hangs > 4 {
                continue;
            }
            self.nrefs += 1;
            let shm: *mut RunShm = self.shm;
            unsafe { (*shm).reset() };
            let progress: &AtomicU64 = unsafe { &(*shm).clock };
            let end = sys::in_child(SOLO_MS, progress, || unsafe {
                std::panic::set_hook(Box::new(|_| {}));
                engine::solo(op, &mut (*shm).outcome);
            });
            match end {
                Ended::Exit(0) => {
                    let o = unsafe { (*shm).outcome };
                    if let Some(t) = self.tot {
                        if op.view == View::OpcDisp && o.end == End::Ok {
                            t.mnemonic(o.text.hash());
                        }
                    }
                    self.refs.insert(op.key(), o);
                }
                Ended::Timeout => self.solo_hangs += 1,
                _ => {}
            }
        }
    }

    /// One execution.
    pub fn exec(&mut self, run: &Run, mask: u32, count: bool) -> Verdict {
        if mask & Class::Mismatch.bit() != 0 {
            self.need(&run.ops());
        }
        let shm: *mut RunShm = self.shm;
        unsafe { (*shm).reset() };
        let progress: &AtomicU64 = unsafe { &(*shm).clock };
        let run: &'static Run = unsafe { &*std::ptr::from_ref(run) };
        let refs: &'static Refs = unsafe { &*std::ptr::from_ref(&self.refs) };
        let tot = if count { self.tot } else { None };
        let end = sys::in_child(IDLE_MS, progress, || unsafe {
            engine::child(run, refs, mask, &mut *shm, tot);
        });
        let judge = |c: Class| if mask & c.bit() != 0 { Verdict::Violation(c) } else { Verdict::Inconclusive };
        match end {
            Ended::Exit(0) if self.shm.finished == 1 => Verdict::Clean,
            Ended::Exit(3) => Verdict::Violation(self.shm.class),
            Ended::Exit(4) => Verdict::Inconclusive,
            Ended::Exit(n) => Verdict::Harness(n),
            Ended::Signal(s) => {
                self.died(&format!("the process died of signal {s}"), Class::Crash);
                judge(Class::Crash)
            }
            Ended::Timeout => {
                self.died("the process blocked outside the simulator", Class::Hang);
                judge(Class::Hang)
            }
        }
    }

    fn died(&mut self, what: &str, class: Class) {
        let s = &mut *self.shm;
        s.class = class;
        s.tid = s.at_tid;
        s.step = s.at_step;
        s.detail.len = 0;
        s.detail2.len = 0;
        s.detail.push(what.as_bytes());
        if s.alloc_size > 0 {
            s.detail.push(format!(" after an allocation of {} bytes was refused", s.alloc_size).as_bytes());
        }
    }

    pub fn report(&self) -> Report {
        let s = &*self.shm;
        let mut what = s.detail.string();
        if s.detail2.len > 0 {
            what += " | expected: ";
            what += &s.detail2.string();
        }
        Report { tid: s.tid, step: s.step, what, log: s.log }
    }

    /// The same run with every seeded decision written out.
    pub fn explicit(&self, run: &Run) -> Run {
        let mut r = run.clone();
        r.dynamic = Dynamic::default();
        r.handoff = vec![0];
        for ev in &self.shm.trace[..self.shm.ntrace as usize] {
            let st = r.threads.get_mut(ev.tid as usize).and_then(|t| t.get_mut(ev.step as usize));
            match (ev.kind, st) {
                (0, Some(s)) => s.preempt.push((ev.local, ev.arg as u8)),
                (1, Some(s)) => s.interrupt.push((ev.local, run.intr_pool[ev.arg as usize])),
                (2, Some(s)) => s.stall = Some(ev.local),
                (3, _) => r.handoff.push(ev.arg as u8),
                _ => {}
            }
        }
        r.intr_pool = vec![];
        r
    }

    fn fails(&mut self, run: &Run, mask: u32, class: Class, budget: &mut Budget) -> bool {
        if budget.spent() {
            return false;
        }
        budget.execs += 1;
        self.exec(run, mask, false) == Verdict::Violation(class)
    }

    /// Drop whatever is not needed for a violation of the same class.
    pub fn shrink(&mut self, run: &Run, mask: u32, class: Class) -> (Run, u32) {
        let mut b = Budget { execs: 0, until: sys::now_ms() + if class == Class::Hang { 60_000 } else { 40_000 } };
        let mut best = run.clone();
        // nothing after the violating step matters
        loop {
            let before = size(&best);
            self.shrink_repeat(&mut best, mask, class, &mut b);
            for t in 0..best.threads.len() {
                let mut c = best.clone();
                c.threads[t].clear();
                if !best.threads[t].is_empty() && self.fails(&c, mask, class, &mut b) {
                    best = c;
                }
            }
            for t in 0..best.threads.len() {
                let n = best.threads[t].len();
                self.ddmin(&mut best, n, mask, class, &mut b, |r, lo, hi| {
                    let v = &mut r.threads[t];
                    v.drain(lo..hi.min(v.len()));
                });
            }
            for t in 0..best.threads.len() {
                for s in 0..best.threads[t].len() {
                    let n = best.threads[t][s].preempt.len();
                    self.ddmin(&mut best, n, mask, class, &mut b, |r, lo, hi| {
                        let v = &mut r.threads[t][s].preempt;
                        v.drain(lo..hi.min(v.len()));
                    });
                    let n = best.threads[t][s].interrupt.len();
                    self.ddmin(&mut best, n, mask, class, &mut b, |r, lo, hi| {
                        let v = &mut r.threads[t][s].interrupt;
                        v.drain(lo..hi.min(v.len()));
                    });
                    if best.threads[t][s].stall.is_some() {
                        let mut c = best.clone();
                        c.threads[t][s].stall = None;
                        if self.fails(&c, mask, class, &mut b) {
                            best = c;
                        }
                    }
                    let n = match &best.threads[t][s].act {
                        Act::Session(v) => v.len(),
                        _ => 0,
                    };
                    self.ddmin(&mut best, n, mask, class, &mut b, |r, lo, hi| {
                        if let Act::Session(v) = &mut r.threads[t][s].act {
                            if v.len() > hi - lo {
                                v.drain(lo..hi.min(v.len()));
                            }
                        }
                    });
                    if let Sink::Faults(f) = &best.threads[t][s].sink {
                        let n = f.len();
                        self.ddmin(&mut best, n, mask, class, &mut b, |r, lo, hi| {
                            if let Sink::Faults(v) = &mut r.threads[t][s].sink {
                                v.drain(lo..hi.min(v.len()));
                            }
                        });
                    }
                    if !matches!(best.threads[t][s].sink, Sink::Plain) {
                        let mut c = best.clone();
                        c.threads[t][s].sink = Sink::Plain;
                        if self.fails(&c, mask, class, &mut b) {
                            best = c;
                        }
                    }
                    if let Sink::Io(p) = best.threads[t][s].sink {
                        let simple =
                            [IoPlan { eintr: 0, ..p }, IoPlan { short: 0, ..p }, IoPlan { mode: 0, cap: 0, ..p }, IoPlan { kind: 0, ..p }];
                        for q in simple {
                            let mut c = best.clone();
                            let Sink::Io(cur) = c.threads[t][s].sink else { continue };
                            let q = IoPlan {
                                eintr: q.eintr.min(cur.eintr),
                                short: q.short.min(cur.short),
                                mode: q.mode.min(cur.mode),
                                cap: q.cap.min(cur.cap),
                                kind: q.kind.min(cur.kind),
                                ..cur
                            };
                            if q != cur {
                                c.threads[t][s].sink = Sink::Io(q);
                                if self.fails(&c, mask, class, &mut b) {
                                    best = c;
                                }
                            }
                        }
                    }
                }
            }
            let n = best.handoff.len();
            self.ddmin(&mut best, n, mask, class, &mut b, |r, lo, hi| {
                let v = &mut r.handoff;
                v.drain(lo..hi.min(v.len()));
            });
            for f in 0..4 {
                let mut c = best.clone();
                match f {
                    3 => c.env.weak = 0,
                    0 => c.env.poison = false,
                    1 => c.env.deny = false,
                    _ => c.env.alloc = c.env.alloc.min(1),
                }
                if c != best && self.fails(&c, mask, class, &mut b) {
                    best = c;
                }
            }
            if size(&best) >= before || b.spent() {
                break;
            }
        }
        // trailing threads without steps go; a hole in between keeps the numbers stable
        while best.threads.len() > 1 && best.threads.last().is_some_and(Vec::is_empty) {
            let mut c = best.clone();
            c.threads.pop();
            if self.fails(&c, mask, class, &mut b) {
                best = c;
            } else {
                break;
            }
        }
        (best, b.execs)
    }

    fn shrink_repeat(&mut self, best: &mut Run, mask: u32, class: Class, b: &mut Budget) {
        while best.repeat > 1 {
            let mut done = true;
            for n in [1, best.repeat / 16, best.repeat / 2, best.repeat - best.repeat / 8, best.repeat - 1] {
                if n >= 1 && n < best.repeat {
                    let mut c = best.clone();
                    c.repeat = n;
                    if self.fails(&c, mask, class, b) {
                        *best = c;
                        done = false;
                        break;
                    }
                }
            }
            if done {
                break;
            }
        }
    }

    fn ddmin(&mut self, best: &mut Run, n: usize, mask: u32, class: Class, b: &mut Budget, cut: impl Fn(&mut Run, usize, usize)) {
        let mut n = n;
        let mut len = n;
        while len >= 1 && n > 0 {
            let mut hi = n;
            while hi > 0 {
                let lo = hi.saturating_sub(len);
                let mut c = best.clone();
                cut(&mut c, lo, hi);
                if c != *best && self.fails(&c, mask, class, b) {
                    *best = c;
                    n -= hi - lo;
                }
                hi = lo;
                if b.spent() {
                    return;
                }
            }
            len = if len == 1 { 0 } else { len.div_ceil(2).min(len - 1) };
        }
    }
}

struct Budget {
    execs: u32,
    until: u64,
}

impl Budget {
    fn spent(&self) -> bool {
        self.execs > 6000 || sys::now_ms() > self.until
    }
}

fn size(r: &Run) -> usize {
    let mut n = r.repeat as usize + r.handoff.len();
    for s in r.threads.iter().flatten() {
        n += 10 + s.preempt.len() + s.interrupt.len() + usize::from(s.stall.is_some());
        n += match &s.sink {
            Sink::Plain => 0,
            Sink::Faults(f) => 1 + f.len(),
            _ => 3,
        };
        if let Act::Session(v) = &s.act {
            n += v.len();
        }
    }
    n
}

/// Run chunk after chunk until done; returns the lowest violating run found by this worker.
#[allow(clippy::too_many_arguments)]
pub fn worker(x: &mut Exec, prop: &str, seed: u64, first: u64, runs: u64, w: u64, workers: u64, until: u64, debug: bool, all: bool) {
    let tot = x.tot.expect("totals");
    let mask = gen::mask(prop);
    let chunks = runs.div_ceil(gen::CHUNK);
    let mut ch = w;
    while ch < chunks {
        x.forget_refs();
        let n0 = x.nrefs;
        let gch = first / gen::CHUNK + ch;
        let ops = gen::chunk_ops(seed, prop, gch);
        for i in ch * gen::CHUNK..((ch + 1) * gen::CHUNK).min(runs) {
            if sys::now_ms() > until || x.solo_hangs > 4 {
                return;
            }
            if !all && tot.lowest_violation.load(Relaxed) < i {
                return;
            }
            let run = make(x, prop, seed, first + i, &ops, debug);
            let violated = one(x, tot, mask, &run, i, i as usize);
            tot.runs.fetch_add(1, Relaxed);
            if x.shm.global_accesses > 0 && (i as usize) < MAXRUNS {
                tot.touched[ch as usize].store(1, Relaxed);
            }
            if (i as usize) < MAXRUNS {
                tot.logs[i as usize].store(x.shm.log | 1, Relaxed);
            }
            if violated && !all {
                return;
            }
        }
        tot.refs.fetch_add(x.nrefs - n0, Relaxed);
        ch += workers;
    }
}

/// One run and its bookkeeping; whether it violates.
fn one(x: &mut Exec, tot: &Totals, mask: u32, run: &Run, id: u64, slot: usize) -> bool {
    let v = x.exec(run, mask, true);
    tot.calls.fetch_add(x.shm.calls, Relaxed);
    tot.steps.fetch_add(x.shm.steps, Relaxed);
    tot.global_accesses.fetch_add(x.shm.global_accesses, Relaxed);
    for k in 0..NFAULT {
        tot.fired[k].fetch_add(x.shm.fired[k], Relaxed);
    }
    if slot < MAXRUNS {
        let h = if x.shm.nontrivial == 1 { x.shm.sched_hash | 1 } else { 0 };
        tot.hashes[slot].store(h, Relaxed);
    }
    match v {
        Verdict::Clean => {}
        Verdict::Inconclusive => {
            tot.inconclusive.fetch_add(1, Relaxed);
        }
        Verdict::Harness(n) => {
            if tot.harness_errors.fetch_add(1, Relaxed) < 3 {
                eprintln!("run {id}: simulator process ended with code {n}");
            }
        }
        Verdict::Violation(c) => {
            let (log, touched) = (x.shm.log, x.shm.global_accesses);
            // a death or a block has to happen twice to count
            let twice = !matches!(c, Class::Crash | Class::Hang) || x.exec(run, mask, false) == Verdict::Violation(c);
            x.shm.log = log;
            x.shm.global_accesses = touched;
            if twice {
                tot.lowest_violation.fetch_min(id, Relaxed);
                return true;
            }
            tot.inconclusive.fetch_add(1, Relaxed);
        }
    }
    false
}

/// How many extra runs each chunk that touched lasting memory gets: as many again as were planned, spread over them.
pub fn share(runs: u64, touched: usize) -> u64 {
    (runs / touched as u64).clamp(gen::CHUNK, 480)
}

/// Extra runs for the chunks whose runs touched memory that outlives a call.
#[allow(clippy::too_many_arguments)]
pub fn focus(x: &mut Exec, prop: &str, seed: u64, runs: u64, chunks: &[u64], w: usize, workers: usize, until: u64, debug: bool, all: bool) {
    let tot = x.tot.expect("totals");
    let mask = gen::mask(prop);
    let per = share(runs, chunks.len());
    let (stride, sets) = (chunks.len().div_ceil(150), (150 / chunks.len() as u64).clamp(1, 12));
    for (j, &ch) in chunks.iter().enumerate().skip(w).step_by(workers) {
        x.forget_refs();
        let n0 = x.nrefs;
        let others = if j % stride == 0 { gen::OTHERS..gen::OTHERS + 4 * sets } else { 0..0 };
        for k in (0..per).chain(others) {
            let id = gen::EXTRA + ch * 4096 + k;
            if sys::now_ms() > until || x.solo_hangs > 4 || (!all && tot.lowest_violation.load(Relaxed) < id) {
                return;
            }
            let run = numbered(x, prop, seed, id, debug);
            let slot = if k < per { (runs + j as u64 * per + k) as usize } else { usize::MAX };
            let violated = one(x, tot, mask, &run, id, slot);
            tot.extra.fetch_add(1, Relaxed);
            tot.extra_log.fetch_add(x.shm.log.rotate_left((id % 61) as u32), Relaxed);
            if violated && !all {
                return;
            }
        }
        tot.refs.fetch_add(x.nrefs - n0, Relaxed);
    }
}

/// Run number `id` of a property with the calls it draws from.
pub fn numbered(x: &mut Exec, prop: &str, seed: u64, id: u64, debug: bool) -> Run {
    if id < gen::EXTRA {
        let ops = gen::chunk_ops(seed, prop, id / gen::CHUNK);
        return make(x, prop, seed, id, &ops, debug);
    }
    let mut ops = gen::chunk_ops(seed, prop, (id - gen::EXTRA) / 4096);
    x.need(&ops);
    let hot: Vec<Op> = ops.iter().copied().filter(|o| x.refs.get(&o.key()).is_some_and(|r| r.touched > 0)).collect();
    let k = (id - gen::EXTRA) % 4096;
    if !hot.is_empty() && k >= gen::OTHERS {
        // the same kinds of call with many other operands
        ops = gen::other_operands(hash2(seed, id / 4), &hot);
    } else if !hot.is_empty() && k % 4 != 3 {
        // mostly those calls that touch it themselves
        ops = hot;
    }
    make(x, prop, seed, id, &ops, debug)
}

/// Run number `i` of a property.
pub fn make(x: &mut Exec, prop: &str, seed: u64, i: u64, ops: &[Op], debug: bool) -> Run {
    let mut run = gen::gen(prop, seed, i, ops, debug);
    if prop == "C08" || prop == "C09" {
        // a call that panics even alone is judged elsewhere (panicking itself needs heap and OS)
        x.need(&run.ops());
        let ok = |o: &Op| x.refs.get(&o.key()).is_some_and(|r| r.end != End::Panic);
        run.threads[0].retain(|s| match &s.act {
            Act::Call(o) => ok(o) && match &s.sink {
                Sink::Faults(f) => f.iter().all(|f| match &f.hit {
                    Hit::Reenter(o) | Hit::Recurse(o) => ok(o),
                    _ => true,
                }),
                _ => true,
            },
            _ => true,
        });
    }
    run
}
