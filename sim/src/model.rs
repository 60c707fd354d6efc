//! What a simulated run consists of, and its text form (the replay file).

use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum View {
    Decode,
    Parts,
    TryFrom,
    Disp,
    Debug,
    DebugAlt,
    OpcDisp,
    OpcDebug,
    Padded,
    EqSelf,
    EqIsa,
    /// rendering a value whose operands the caller has set
    Built,
}

pub const VIEWS: [View; 11] = [
    View::Decode, View::Parts, View::TryFrom, View::Disp, View::Debug, View::DebugAlt,
    View::OpcDisp, View::OpcDebug, View::Padded, View::EqSelf, View::EqIsa,
];
/// Views whose text goes to the caller's sink.
pub const RENDER: [View; 6] =
    [View::Disp, View::Debug, View::DebugAlt, View::OpcDisp, View::OpcDebug, View::Padded];
pub const RENDER_ANY: [View; 8] = [
    View::Disp, View::Debug, View::DebugAlt, View::OpcDisp, View::OpcDebug, View::Padded, View::Built, View::Built,
];

impl View {
    pub fn name(self) -> String {
        format!("{self:?}")
    }
    pub fn parse(s: &str) -> View {
        *VIEWS.iter().chain(&[View::Built]).find(|v| v.name() == s).expect("view")
    }
    pub fn renders(self) -> bool {
        RENDER_ANY.contains(&self)
    }
}

/// One call on the library: word, its width, the ISA width, what is asked of it.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Op {
    pub w: u32,
    pub wide: bool,
    pub rv64: bool,
    pub view: View,
}

impl Op {
    pub fn text(&self) -> String {
        format!(
            "{}/{}/{}/{}",
            if self.wide { format!("{:08x}", self.w) } else { format!("{:04x}", self.w) },
            if self.wide { "u32" } else { "u16" },
            if self.rv64 { "rv64" } else { "rv32" },
            self.view.name()
        )
    }
    pub fn parse(s: &str) -> Op {
        let p: Vec<&str> = s.split('/').collect();
        Op {
            w: u32::from_str_radix(p[0], 16).expect("word"),
            wide: p[1] == "u32",
            rv64: p[2] == "rv64",
            view: View::parse(p[3]),
        }
    }
    pub fn key(&self) -> u64 {
        u64::from(self.w) | u64::from(self.wide) << 32 | u64::from(self.rv64) << 33 | (self.view as u64) << 34
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At {
    Call(u32),
    Byte(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hit {
    Err,
    ErrOnce,
    Panic,
    Reenter(Op),
    /// as `Reenter`, and the nested rendering's sink does the same, down to the deepest level
    Recurse(Op),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SinkFault {
    pub at: At,
    pub hit: Hit,
}

/// How a simulated I/O device behaves.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IoPlan {
    /// 0 direct, 1 BufWriter, 2 LineWriter, 3 fixed byte slice
    pub mode: u8,
    pub cap: u32,
    pub short: u8,
    pub eintr: u8,
    pub seed: u64,
    /// device fails hard once this many bytes were accepted; u32::MAX = never
    pub hard: u32,
    /// 0 EIO, 1 ENOSPC, 2 EPIPE, 3 EAGAIN, 4 write returns 0
    pub kind: u8,
    pub once: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sink {
    Plain,
    Faults(Vec<SinkFault>),
    /// every call position in turn refuses (false: for good, true: once)
    Sweep(bool),
    Io(IoPlan),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Act {
    Call(Op),
    /// decode and keep the value in a shared slot
    Keep(Op, u8),
    /// use the value kept in the slot
    Use(u8, View),
    /// render several values, one per line, into one sink
    Session(Vec<Op>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Step {
    pub act: Act,
    pub sink: Sink,
    /// (step-local time, thread to run next)
    pub preempt: Vec<(u32, u8)>,
    /// (step-local time, nested call)
    pub interrupt: Vec<(u32, Op)>,
    /// stopped for good at this step-local time
    pub stall: Option<u32>,
}

impl Step {
    pub fn call(op: Op) -> Step {
        Step { act: Act::Call(op), sink: Sink::Plain, preempt: vec![], interrupt: vec![], stall: None }
    }
}

/// Seeded decisions taken while the run proceeds (off in a replay, which lists them).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Dynamic {
    pub on: bool,
    pub seed: u64,
    /// mean number of yield points between two decisions; 0 = never
    pub mean: u32,
    /// percent chance of a decision at an access to writable global memory
    pub p_global: u8,
    /// relative weights
    pub w_preempt: u8,
    pub w_interrupt: u8,
    pub w_stall: u8,
    pub max_stall: u8,
    pub max_interrupt: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Env {
    pub alloc: u8,
    pub deny: bool,
    pub poison: bool,
    pub seed: u64,
    /// not 0: stores to globals may become visible late, which ones depends on this seed
    pub weak: u64,
}

/// Which results are judged, and against what.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Judge {
    /// every call, against the same call made alone in a fresh process
    All = 0,
    /// only uses of kept values, against the same
    Kept = 1,
    /// renderings into failing sinks, against a rendering into a willing one in the same run
    Sinks = 2,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Run {
    pub threads: Vec<Vec<Step>>,
    /// calls a dynamic interrupt may make
    pub intr_pool: Vec<Op>,
    /// choices of the next thread when one ends or stops
    pub handoff: Vec<u8>,
    pub dynamic: Dynamic,
    pub env: Env,
    /// yield points are live (false: plain sequential calls)
    pub sched: bool,
    pub judge: Judge,
    /// how often each thread repeats its list of steps
    pub repeat: u32,
}

fn at_text(a: At) -> String {
    match a {
        At::Call(k) => format!("call{k}"),
        At::Byte(b) => format!("byte{b}"),
    }
}

fn at_parse(s: &str) -> At {
    if let Some(k) = s.strip_prefix("call") {
        At::Call(k.parse().unwrap())
    } else {
        At::Byte(s.strip_prefix("byte").unwrap().parse().unwrap())
    }
}

impl Sink {
    pub fn text(&self) -> String {
        match self {
            Sink::Plain => "plain".into(),
            Sink::Sweep(o) => format!("sweep:{}", u8::from(*o)),
            Sink::Faults(v) => {
                let mut s = String::from("faults");
                for f in v {
                    let h = match f.hit {
                        Hit::Err => "refuse".to_string(),
                        Hit::ErrOnce => "refuse-once".to_string(),
                        Hit::Panic => "panic".to_string(),
                        Hit::Reenter(op) => format!("reenter={}", op.text()),
                        Hit::Recurse(op) => format!("recurse={}", op.text()),
                    };
                    let _ = write!(s, ":{},{}", at_text(f.at), h);
                }
                s
            }
            Sink::Io(p) => format!(
                "io:{}:{}:{}:{}:{}:{}:{}:{}",
                p.mode, p.cap, p.short, p.eintr, p.seed, p.hard, p.kind, u8::from(p.once)
            ),
        }
    }
    fn parse(s: &str) -> Sink {
        let p: Vec<&str> = s.split(':').collect();
        match p[0] {
            "plain" => Sink::Plain,
            "sweep" => Sink::Sweep(p[1] == "1"),
            "faults" => Sink::Faults(
                p[1..]
                    .iter()
                    .map(|f| {
                        let (a, h) = f.split_once(',').unwrap();
                        let hit = match h {
                            "refuse" => Hit::Err,
                            "refuse-once" => Hit::ErrOnce,
                            "panic" => Hit::Panic,
                            r => match r.split_once('=').unwrap() {
                                ("recurse", o) => Hit::Recurse(Op::parse(o)),
                                (_, o) => Hit::Reenter(Op::parse(o)),
                            },
                        };
                        SinkFault { at: at_parse(a), hit }
                    })
                    .collect(),
            ),
            _ => Sink::Io(IoPlan {
                mode: p[1].parse().unwrap(),
                cap: p[2].parse().unwrap(),
                short: p[3].parse().unwrap(),
                eintr: p[4].parse().unwrap(),
                seed: p[5].parse().unwrap(),
                hard: p[6].parse().unwrap(),
                kind: p[7].parse().unwrap(),
                once: p[8] == "1",
            }),
        }
    }
}

impl Run {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let d = &self.dynamic;
        let _ = writeln!(
            s,
            "env alloc={} deny={} poison={} seed={} weak={} sched={} judge={} repeat={}",
            self.env.alloc, u8::from(self.env.deny), u8::from(self.env.poison), self.env.seed, self.env.weak,
            u8::from(self.sched), self.judge as u8, self.repeat
        );
        if d.on {
            let _ = writeln!(
                s,
                "dynamic {} {} {} {} {} {} {} {}",
                d.seed, d.mean, d.p_global, d.w_preempt, d.w_interrupt, d.w_stall, d.max_stall, d.max_interrupt
            );
            for o in &self.intr_pool {
                let _ = writeln!(s, "pool {}", o.text());
            }
        }
        for (t, steps) in self.threads.iter().enumerate() {
            let _ = writeln!(s, "thread {t}");
            for st in steps {
                let act = match &st.act {
                    Act::Call(o) => format!("call {}", o.text()),
                    Act::Keep(o, k) => format!("keep {} {k}", o.text()),
                    Act::Use(k, v) => format!("use {k} {}", v.name()),
                    Act::Session(v) => {
                        let l: Vec<String> = v.iter().map(Op::text).collect();
                        format!("session {}", l.join(","))
                    }
                };
                let _ = writeln!(s, " step {act} sink {}", st.sink.text());
                for (l, to) in &st.preempt {
                    let _ = writeln!(s, "  preempt at {l} to {to}");
                }
                for (l, o) in &st.interrupt {
                    let _ = writeln!(s, "  interrupt at {l} call {}", o.text());
                }
                if let Some(l) = st.stall {
                    let _ = writeln!(s, "  stop at {l}");
                }
            }
        }
        if !self.handoff.is_empty() {
            let l: Vec<String> = self.handoff.iter().map(u8::to_string).collect();
            let _ = writeln!(s, "handoff {}", l.join(" "));
        }
        s
    }

    pub fn parse(text: &str) -> Run {
        let mut r = Run {
            threads: vec![],
            intr_pool: vec![],
            handoff: vec![],
            dynamic: Dynamic::default(),
            env: Env::default(),
            sched: true,
            judge: Judge::All,
            repeat: 1,
        };
        for line in text.lines() {
            let p: Vec<&str> = line.split_whitespace().collect();
            if p.is_empty() {
                continue;
            }
            match p[0] {
                "env" => {
                    for kv in &p[1..] {
                        let (k, v) = kv.split_once('=').unwrap();
                        let v: u64 = v.parse().unwrap();
                        match k {
                            "alloc" => r.env.alloc = v as u8,
                            "deny" => r.env.deny = v == 1,
                            "poison" => r.env.poison = v == 1,
                            "seed" => r.env.seed = v,
                            "weak" => r.env.weak = v,
                            "sched" => r.sched = v == 1,
                            "judge" => r.judge = [Judge::All, Judge::Kept, Judge::Sinks][v as usize],
                            _ => r.repeat = v as u32,
                        }
                    }
                }
                "dynamic" => {
                    let n: Vec<u64> = p[1..].iter().map(|x| x.parse().unwrap()).collect();
                    r.dynamic = Dynamic {
                        on: true,
                        seed: n[0],
                        mean: n[1] as u32,
                        p_global: n[2] as u8,
                        w_preempt: n[3] as u8,
                        w_interrupt: n[4] as u8,
                        w_stall: n[5] as u8,
                        max_stall: n[6] as u8,
                        max_interrupt: n[7] as u8,
                    };
                }
                "pool" => r.intr_pool.push(Op::parse(p[1])),
                "thread" => r.threads.push(vec![]),
                "step" => {
                    let act = match p[1] {
                        "call" => Act::Call(Op::parse(p[2])),
                        "keep" => Act::Keep(Op::parse(p[2]), p[3].parse().unwrap()),
                        "use" => Act::Use(p[2].parse().unwrap(), View::parse(p[3])),
                        _ => Act::Session(p[2].split(',').map(Op::parse).collect()),
                    };
                    let sink = Sink::parse(p[p.len() - 1]);
                    r.threads.last_mut().unwrap().push(Step {
                        act, sink, preempt: vec![], interrupt: vec![], stall: None,
                    });
                }
                "preempt" | "interrupt" | "stop" => {
                    let st = r.threads.last_mut().unwrap().last_mut().unwrap();
                    let l: u32 = p[2].parse().unwrap();
                    match p[0] {
                        "preempt" => st.preempt.push((l, p[4].parse().unwrap())),
                        "interrupt" => st.interrupt.push((l, Op::parse(p[4]))),
                        _ => st.stall = Some(l),
                    }
                }
                "handoff" => r.handoff = p[1..].iter().map(|x| x.parse().unwrap()).collect(),
                _ => {}
            }
        }
        r
    }

    /// All calls whose stand-alone result is needed.
    pub fn ops(&self) -> Vec<Op> {
        let mut v = self.intr_pool.clone();
        let mut kept = vec![];
        let mut used = vec![];
        for st in self.threads.iter().flatten() {
            match &st.act {
                Act::Call(o) => v.push(*o),
                Act::Keep(o, _) => kept.push(*o),
                Act::Use(_, w) => used.push(*w),
                Act::Session(l) => v.extend(l),
            }
            v.extend(st.interrupt.iter().map(|x| x.1));
            if let Sink::Faults(f) = &st.sink {
                for x in f {
                    if let Hit::Reenter(o) | Hit::Recurse(o) = x.hit {
                        v.push(o);
                    }
                }
            }
        }
        for o in kept {
            v.push(Op { view: View::Decode, ..o });
            for view in &used {
                v.push(Op { view: *view, ..o });
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    }
}
