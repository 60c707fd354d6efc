//! What each property's runs look like: everything is drawn from the run's seed.

use crate::model::*;
use crate::rng::{hash2, Rng};
use crate::shm::Class;
use crate::words;

/// Runs that share a pool of calls (and so the references computed for it).
pub const CHUNK: u64 = 16;

/// A pool with more calls than this has them all.
const BROAD: usize = 300;

/// Numbers of the runs that are added for chunks whose runs touch memory that outlives a call.
pub const EXTRA: u64 = 1 << 40;

/// Of these, the ones that use other operands (the last part of the number, which counts in a chunk).
pub const OTHERS: u64 = 4000;

pub fn mask(prop: &str) -> u32 {
    use Class::*;
    let l: &[Class] = match prop {
        // a rendering that never ends, dies or panics when the sink refuses does not return an error
        "C01" => &[Swallow, Panicked, NoProgress, Crash, Hang],
        "C02" => &[Spurious, NoProgress, Crash, Hang],
        "C03" => &[NotPrefix, WroteAfter, RetryDiff],
        "C07" => &[NoProgress, Panicked, Crash, Hang],
        "C09" => &[Mismatch, OsCall, Crash],
        "C08" => &[Mismatch, Crash],
        // a call that never returns, or dies, does not return what it returns alone
        _ => &[Mismatch, NoProgress, Crash, Hang],
    };
    l.iter().fold(0, |m, c| m | c.bit())
}

pub fn prop_num(prop: &str) -> u64 {
    prop[1..].parse().expect("property id")
}

fn word(r: &mut Rng) -> (u32, bool, bool) {
    let wide = r.pct(65);
    let w = if wide { words::word32(r) } else { u32::from(words::word16(r)) };
    (w, wide, r.pct(55))
}

fn op(r: &mut Rng, views: &[View]) -> Op {
    let (w, wide, rv64) = word(r);
    Op { w, wide, rv64, view: *r.pick(views) }
}

/// The pool of calls of a chunk.
pub fn chunk_ops(seed: u64, prop: &str, chunk: u64) -> Vec<Op> {
    let mut r = Rng::new(hash2(hash2(seed, prop_num(prop)), 0x5000_0000_0000 + chunk));
    if prop == "C08" || prop == "C09" {
        let words = words::pool(&mut r, 100);
        return (0..160).map(|_| of(&mut r, &words, 50)).collect();
    }
    let (every, deep) = match prop {
        "C05" => (157, 95),
        "C07" => (97, 31),
        "C10" => (47, 61),
        _ => (47, 31),
    };
    if chunk % every == 9 {
        // everything meets everything
        let mut v = vec![];
        for (w, wide, rv64) in words::catalogue(&mut r) {
            for view in [View::Decode, View::Disp, *r.pick(&VIEWS)] {
                v.push(Op { w, wide, rv64, view });
            }
        }
        return v;
    }
    if chunk % deep == 4 {
        // one kind of instruction with many operands
        let only = *r.pick(&[Some(View::Disp), Some(View::Disp), Some(View::Decode), None, None]);
        return words::deep(&mut r, 320)
            .into_iter()
            .map(|(w, wide, rv64)| Op { w, wide, rv64, view: only.unwrap_or(*r.pick(&VIEWS)) })
            .collect();
    }
    if r.pct(45) {
        let n = *r.pick(&[2, 3, 6]);
        let words = words::themed(&mut r, n);
        let render_bias = *r.pick(&[0, 50, 100, 100]);
        let only = if r.pct(50) { Some(if render_bias == 0 { View::Decode } else { View::Disp }) } else { None };
        return (0..14)
            .map(|_| {
                let o = of(&mut r, &words, render_bias);
                Op { view: only.unwrap_or(o.view), ..o }
            })
            .collect();
    }
    let (nwords, n) = *r.pick(&[(3, 28), (6, 28), (12, 28), (40, 56)]);
    let words = words::pool(&mut r, nwords);
    let render_bias = r.below(101);
    (0..n).map(|_| of(&mut r, &words, render_bias)).collect()
}

/// The kinds of calls given, with many other operands.
pub fn other_operands(seed: u64, hot: &[Op]) -> Vec<Op> {
    let mut r = Rng::new(seed);
    let kinds: Vec<Op> = (0..*r.pick(&[1, 2, 4, 16])).map(|_| *r.pick(hot)).collect();
    (0..BROAD + 20)
        .map(|_| {
            let o = *r.pick(&kinds);
            Op { w: words::other_operands(&mut r, o.w, o.wide), ..o }
        })
        .collect()
}

fn of(r: &mut Rng, words: &[(u32, bool, bool)], render_bias: u64) -> Op {
    let (w, wide, rv64) = *r.pick(words);
    let view = if r.pct(render_bias) {
        *r.pick(&[View::Disp, View::Disp, View::OpcDisp, View::Debug, View::Padded])
    } else {
        *r.pick(&VIEWS)
    };
    Op { w, wide, rv64, view }
}

fn blank(r: &mut Rng) -> Run {
    Run {
        threads: vec![],
        intr_pool: vec![],
        handoff: vec![],
        dynamic: Dynamic { on: true, seed: r.next(), ..Dynamic::default() },
        env: Env::default(),
        sched: true,
        judge: Judge::All,
        repeat: 1,
    }
}

fn sched(r: &mut Rng, d: &mut Dynamic, extra: bool) {
    d.mean = *r.pick(&[2, 6, 20, 60, 150, 400, 1500, 5000]);
    d.p_global = if extra { *r.pick(&[15, 40, 70, 95]) } else { *r.pick(&[0, 15, 40, 70, 95]) };
}

/// How many callers at once.
fn callers(r: &mut Rng) -> u64 {
    match r.below(100) {
        0..=1 => r.range(11, 20),
        2..=15 => r.range(5, 10),
        _ => r.range(2, 4),
    }
}

fn weak(r: &mut Rng, env: &mut Env, extra: bool) {
    if r.pct(if extra { 60 } else { 40 }) {
        env.weak = r.next() >> 8 | 1;
    }
}

fn fmt_fault(r: &mut Rng, ops: &[Op], reenter: u64, panic: u64) -> SinkFault {
    let at = if r.pct(50) { At::Call(r.below(9) as u32) } else { At::Byte(r.below(30) as u32) };
    let hit = if r.pct(reenter) {
        Hit::Reenter(*r.pick(ops))
    } else if r.pct(panic) {
        Hit::Panic
    } else if r.pct(50) {
        Hit::Err
    } else {
        Hit::ErrOnce
    };
    SinkFault { at, hit }
}

fn keep_use(r: &mut Rng, ops: &[Op]) -> Act {
    const V: [View; 8] = [
        View::Disp, View::Disp, View::Debug, View::OpcDisp, View::OpcDebug, View::EqSelf, View::Padded, View::Decode,
    ];
    let slot = r.below(4) as u8;
    if r.pct(40) {
        Act::Keep(*r.pick(ops), slot)
    } else {
        Act::Use(slot, *r.pick(&V))
    }
}

fn io_plan(r: &mut Rng, hard: bool) -> IoPlan {
    let mode = r.below(4) as u8;
    IoPlan {
        mode,
        cap: *r.pick(&[0, 1, 2, 3, 5, 8, 13, 32, 256]),
        short: *r.pick(&[0, 0, 20, 60, 100]),
        eintr: *r.pick(&[0, 0, 10, 40]),
        seed: r.next() >> 16,
        hard: if hard {
            r.range_to(0, &[5, 13, 29, 59]) as u32
        } else if mode == 3 {
            1024
        } else {
            u32::MAX
        },
        kind: r.below(5) as u8,
        once: r.pct(40),
    }
}

fn s_run(prop: &str, r: &mut Rng) -> Run {
    let mut run = blank(r);
    run.judge = Judge::Sinks;
    run.sched = false;
    run.dynamic.mean = 0;
    let mut steps = vec![];
    for _ in 0..r.range(20, 160) {
        let views: &[View] = match (r.pct(60), prop) {
            (true, _) => &[View::Disp],
            (_, "C02") => &RENDER,
            _ => &RENDER_ANY,
        };
        let session = r.pct(12);
        let act = if session {
            Act::Session((0..r.range(2, 5)).map(|_| op(r, views)).collect())
        } else {
            Act::Call(op(r, views))
        };
        let span = if session { 90 } else { 28 };
        let at = |r: &mut Rng| {
            if r.pct(35) { At::Call(r.below(if session { 30 } else { 10 }) as u32) } else { At::Byte(r.below(span) as u32) }
        };
        let sink = match prop {
            "C01" => match r.below(10) {
                0..=3 => Sink::Sweep(r.pct(50)),
                4..=5 => Sink::Faults(vec![SinkFault { at: at(r), hit: if r.pct(50) { Hit::Err } else { Hit::ErrOnce } }]),
                _ => Sink::Io(io_plan(r, true)),
            },
            "C02" => match r.below(10) {
                0 => Sink::Plain,
                _ => Sink::Io(io_plan(r, false)),
            },
            _ => match r.below(10) {
                0..=2 => Sink::Sweep(r.pct(50)),
                3..=6 => {
                    let n = if r.pct(75) { 1 } else { 2 };
                    Sink::Faults(
                        (0..n)
                            .map(|_| SinkFault { at: at(r), hit: *r.pick(&[Hit::Err, Hit::ErrOnce, Hit::ErrOnce, Hit::Panic]) })
                            .collect(),
                    )
                }
                _ => Sink::Io(io_plan(r, true)),
            },
        };
        steps.push(Step { sink, ..Step::call(Op { w: 0, wide: true, rv64: true, view: View::Disp }) });
        steps.last_mut().unwrap().act = act;
    }
    run.threads.push(steps);
    run
}

pub fn gen(prop: &str, seed: u64, i: u64, ops: &[Op], debug: bool) -> Run {
    let mut rr = Rng::new(hash2(hash2(seed, prop_num(prop)), i));
    let r = &mut rr;
    let extra = i >= EXTRA;
    // a run works with a few of the chunk's calls
    let k = *r.pick(&[1, 2, 3, 5, 9, 28]);
    let few: Vec<Op> = if ops.len() > BROAD { ops.to_vec() } else { (0..k).map(|_| *r.pick(ops)).collect() };
    let broad = ops.len() > BROAD && matches!(prop, "C04" | "C05" | "C06" | "C07" | "C10");
    match prop {
        "C01" | "C02" | "C03" => s_run(prop, r),
        "C04" => {
            let mut run = blank(r);
            sched(r, &mut run.dynamic, extra);
            if broad {
                run.dynamic.mean = *r.pick(&[40, 100, 300]);
            }
            run.dynamic.w_preempt = 1;
            weak(r, &mut run.env, extra);
            let kept = r.pct(25);
            let nt = if broad { r.range(2, 3) } else { callers(r) };
            for _ in 0..nt {
                let n = if broad { r.range(40, 120) } else { r.range_to(1, &[2, 4, 9]) };
                run.threads.push(
                    (0..n)
                        .map(|_| {
                            let mut s = Step::call(*r.pick(&few));
                            if kept && r.pct(70) {
                                s.act = keep_use(r, &few);
                            }
                            s
                        })
                        .collect(),
                );
            }
            run
        }
        "C05" => {
            let mut run = blank(r);
            sched(r, &mut run.dynamic, extra);
            run.intr_pool = few.clone();
            run.dynamic.w_interrupt = 3;
            run.dynamic.max_interrupt = *r.pick(&[1, 2, 4, 16, 60]);
            if broad {
                run.dynamic.mean = *r.pick(&[60, 150, 400]);
                run.dynamic.max_interrupt = 250;
            }
            let sinks = *r.pick(&[0, 40, 90]);
            if r.pct(20) {
                run.dynamic.w_interrupt = 0;
            }
            {
                let n = if broad { r.range(60, 200) } else { r.range_to(1, &[2, 5, 12]) };
                run.threads.push(
                    (0..n)
                        .map(|_| {
                            let mut s = Step::call(*r.pick(&few));
                            if r.pct(sinks) && r.pct(15) {
                                s.sink = Sink::Faults(
                                    (0..r.range(1, 3))
                                        .map(|_| SinkFault { at: At::Call(r.below(6) as u32), hit: Hit::Recurse(*r.pick(&few)) })
                                        .collect(),
                                );
                            } else if r.pct(sinks) {
                                let m = r.range(1, 3);
                                s.sink = Sink::Faults((0..m).map(|_| fmt_fault(r, &few, 95, 0)).collect());
                            }
                            s
                        })
                        .collect(),
                );
            }
            run
        }
        "C06" => {
            let mut run = blank(r);
            let marathon = !debug && i % CHUNK == 7 && i / CHUNK % 313 == 11;
            if !extra && (i % 256 == 5 || marathon) {
                // a long life: many calls in one process
                run.sched = false;
                run.dynamic.mean = 0;
                let n = if marathon { r.range(1, 4) } else { r.range(5, 28) };
                let faults = *r.pick(&[0, 0, 10]);
                run.threads.push(
                    (0..n)
                        .map(|j| {
                            let mut s = Step::call(ops[j as usize % ops.len()]);
                            if r.pct(faults) {
                                s.sink = Sink::Faults(vec![fmt_fault(r, ops, 0, 20)]);
                            }
                            s
                        })
                        .collect(),
                );
                let total = match (marathon, debug) {
                    (true, _) => 18_000_000,
                    (_, true) => 30_000,
                    _ => 300_000,
                };
                run.repeat = (total / n) as u32;
                return run;
            }
            let faults = *r.pick(&[0, 20, 50, 80]);
            let panics = *r.pick(&[0, 30, 100]);
            let nt = if r.pct(55) || broad { 1 } else { callers(r) };
            if nt > 1 {
                sched(r, &mut run.dynamic, extra);
                run.dynamic.w_stall = 3;
                run.dynamic.max_stall = nt as u8 - 1;
            }
            for _ in 0..nt {
                let n = if broad { r.range(ops.len() as u64 * 5, ops.len() as u64 * 15) } else { r.range_to(2, &[4, 12, 60]) };
                run.threads.push(
                    (0..n)
                        .map(|_| {
                            let mut s = Step::call(*r.pick(&few));
                            if r.pct(faults) {
                                s.sink = Sink::Faults(vec![fmt_fault(r, &few, 0, panics)]);
                            }
                            s
                        })
                        .collect(),
                );
            }
            run
        }
        "C07" => {
            let mut run = blank(r);
            if !extra && r.pct(35) {
                run.sched = false;
                run.dynamic.mean = 0;
                let n = r.range(40, 200);
                run.threads.push((0..n).map(|_| Step::call(op(r, &VIEWS))).collect());
                return run;
            }
            sched(r, &mut run.dynamic, extra);
            let nt = callers(r);
            weak(r, &mut run.env, extra);
            run.dynamic.w_stall = 2;
            run.dynamic.w_preempt = *r.pick(&[0, 1, 4]);
            run.dynamic.max_stall = r.range(1, nt - 1) as u8;
            let faults = *r.pick(&[0, 0, 30]);
            for _ in 0..nt {
                let n = if broad { r.range(20, 60) } else { r.range_to(1, &[2, 6, 15]) };
                run.threads.push(
                    (0..n)
                        .map(|_| {
                            let o = if r.pct(70) { *r.pick(&few) } else { op(r, &VIEWS) };
                            let mut s = Step::call(o);
                            if r.pct(faults) {
                                s.sink = Sink::Faults(vec![fmt_fault(r, &few, 20, 40)]);
                            }
                            s
                        })
                        .collect(),
                );
            }
            run
        }
        "C08" | "C09" => {
            let mut run = blank(r);
            run.sched = false;
            run.dynamic.mean = 0;
            run.env.seed = r.next() >> 8;
            if prop == "C08" {
                run.env.alloc = if r.pct(75) { 1 } else { 2 };
            } else {
                run.env.deny = r.pct(90);
                run.env.poison = !run.env.deny || r.pct(70);
            }
            let n = r.range(10, 120);
            run.threads.push(
                (0..n)
                    .map(|_| {
                        let mut s = Step::call(*r.pick(ops));
                        if r.pct(15) {
                            s.sink = Sink::Faults(vec![fmt_fault(r, ops, 30, 0)]);
                        }
                        s
                    })
                    .collect(),
            );
            run
        }
        "C10" => {
            let mut run = blank(r);
            run.judge = Judge::Kept;
            if (!extra && i % 63 == 20) || (extra && i % 4096 >= OTHERS && i % 2 == 0) {
                // values kept over many other calls
                run.sched = false;
                run.dynamic.mean = 0;
                let mut steps = vec![];
                for slot in 0..4 {
                    steps.push(Step { act: Act::Keep(*r.pick(ops), slot), ..Step::call(ops[0]) });
                }
                for _ in 0..*r.pick(&[70, 140, 300, 1200]) {
                    steps.push(Step::call(*r.pick(ops)));
                }
                for slot in 0..4 {
                    steps.push(Step { act: Act::Use(slot, *r.pick(&[View::Disp, View::Debug, View::EqSelf])), ..Step::call(ops[0]) });
                }
                run.threads.push(steps);
                return run;
            }
            let nt = if r.pct(50) { 1 } else { r.range(2, 3) };
            if nt > 1 {
                sched(r, &mut run.dynamic, extra);
                if broad {
                    run.dynamic.mean = *r.pick(&[60, 150, 400]);
                }
                run.dynamic.w_preempt = 1;
                weak(r, &mut run.env, extra);
            }
            let faults = *r.pick(&[0, 0, 30]);
            for _ in 0..nt {
                let n = if broad { r.range(60, 300) } else { r.range_to(3, &[6, 14, 40]) };
                run.threads.push(
                    (0..n)
                        .map(|_| {
                            let mut s = Step::call(*r.pick(&few));
                            if r.pct(75) {
                                s.act = keep_use(r, &few);
                            }
                            if r.pct(faults) {
                                s.sink = Sink::Faults(vec![fmt_fault(r, &few, 0, 30)]);
                            }
                            s
                        })
                        .collect(),
                );
            }
            run
        }
        _ => panic!("unknown property {prop}"),
    }
}
