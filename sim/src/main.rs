//! Deterministic simulation of callers of raki.  See /verif/DESIGN.md.
//!
//!   sim check  --prop C04 --seed 1 --runs N [--secs S] [--workers W] --label dev --out FILE --replays DIR
//!   sim replay FILE
//!   sim show   --prop C04 --seed 1 --run I
//!   sim logs   --prop C04 --seed 1 --runs N [--workers W]      (event-log hash of every run)

mod drive;
mod engine;
mod gen;
mod model;
mod rng;
mod shm;
mod sys;
mod words;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;

use drive::{Exec, Verdict};
use model::Run;
use shm::*;

#[global_allocator]
static ALLOC: sys::SimAlloc = sys::SimAlloc;

const DEBUG: bool = cfg!(debug_assertions);

struct Args(BTreeMap<String, String>);

impl Args {
    fn get(&self, k: &str) -> &str {
        self.0.get(k).unwrap_or_else(|| panic!("missing --{k}"))
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map_or(d, |v| v.parse().expect("number"))
    }
}

fn main() {
    sys::fixed_layout();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = Args(BTreeMap::new());
    let mut free = vec![];
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") {
            a.0.insert(k.to_string(), it.next().expect("value"));
        } else {
            free.push(x);
        }
    }
    if engine::probe() == 0 {
        eprintln!("simulator error: raki was built without yield points");
        std::process::exit(2);
    }
    let code = match cmd.as_str() {
        "check" => check(&a),
        "replay" => replay(&free[0]),
        "show" => show(&a),
        "logs" => logs(&a),
        _ => {
            eprintln!("usage: sim check|replay|show|logs");
            2
        }
    };
    std::process::exit(code);
}

fn run_workers(a: &Args, tot: &'static Totals, all: bool) -> bool {
    let prop = a.get("prop").to_string();
    let seed = a.num("seed", 1);
    let runs = a.num("runs", 1000);
    let first = a.num("first", 0);
    let workers = a.num("workers", 8);
    let until = sys::now_ms() + a.num("secs", 3600) * 1000;
    tot.lowest_violation.store(u64::MAX, Relaxed);
    let mut ok = fleet(workers, &|w| {
        let mut x = Exec::new(Some(tot));
        drive::worker(&mut x, &prop, seed, first, runs, w, workers, until, DEBUG, all);
    });
    // calls that leave something behind get as many runs again
    let chunks: Vec<u64> = (0u64..).zip(&tot.touched).filter(|(_, t)| t.load(Relaxed) == 1).map(|(c, _)| first / gen::CHUNK + c).collect();
    let wanted = matches!(prop.as_str(), "C04" | "C05" | "C06" | "C07" | "C10") && !chunks.is_empty();
    if ok && wanted && (all || tot.lowest_violation.load(Relaxed) == u64::MAX) {
        ok = fleet(workers, &|w| {
            let mut x = Exec::new(Some(tot));
            drive::focus(&mut x, &prop, seed, runs, &chunks, w as usize, workers as usize, until, DEBUG, all);
        });
    }
    ok
}

/// Do it in as many processes as asked for; whether all went well.
fn fleet(workers: u64, work: &dyn Fn(u64)) -> bool {
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            sys::pin(w as usize);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(w)));
            unsafe { sys::_exit(i32::from(r.is_err())) }
        }
        pids.push(pid);
    }
    let mut ok = true;
    for p in pids {
        let mut st = 0;
        unsafe {
            while sys::waitpid(p, &mut st, 0) != p {}
        }
        ok &= st == 0;
    }
    ok
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn check(a: &Args) -> i32 {
    let prop = a.get("prop").to_string();
    let seed = a.num("seed", 1);
    let label = a.get("label").to_string();
    let tot: &'static Totals = sys::shared::<Totals>();
    let t0 = sys::now_ms();
    let ok = run_workers(a, tot, false);
    let secs = (sys::now_ms() - t0) as f64 / 1000.0;
    let low = tot.lowest_violation.load(Relaxed);
    let mut violation = String::from("null");
    let mut code = 0;
    if low != u64::MAX {
        match minimise(a, tot, low, &label) {
            Ok((path, class, what)) => {
                violation = format!("{{\"run\": {low}, \"class\": \"{class}\", \"replay\": \"{}\", \"what\": \"{}\"}}", esc(&path), esc(&what));
                code = 1;
            }
            Err(m) => {
                eprintln!("{m}");
                code = 2;
            }
        }
    }
    if !ok || tot.harness_errors.load(Relaxed) > 0 {
        eprintln!("simulator error: worker failed");
        if code == 0 {
            code = 2;
        }
    }
    let runs = tot.runs.load(Relaxed);
    let mut hs: Vec<u64> = tot.hashes.iter().map(|h| h.load(Relaxed)).filter(|&h| h != 0).collect();
    let nontrivial = hs.len();
    hs.sort_unstable();
    hs.dedup();
    let points: u64 = tot.points.iter().map(|p| u64::from(p.load(Relaxed).count_ones())).sum();
    let mnem: u64 = tot.mnemonics.iter().map(|p| u64::from(p.load(Relaxed).count_ones())).sum();
    let mut faults = vec![];
    for k in 0..NFAULT {
        let n = tot.fired[k].load(Relaxed);
        if n > 0 {
            faults.push(format!("\"{}\": {n}", FAULTS[k]));
        }
    }
    // samples: the first runs, written out
    let mut x = Exec::new(None);
    let mut samples = vec![];
    for i in 0..2u64 {
        let run = drive::numbered(&mut x, &prop, seed, i, DEBUG);
        let t = run.text();
        let cut: Vec<&str> = t.lines().take(24).collect();
        samples.push(format!("\"{}\"", esc(&format!("run {i} ({label}): {}", cut.join("; ")))));
    }
    let json = format!(
        "{{\"label\": \"{label}\", \"runs\": {runs}, \"extra\": {}, \"nontrivial_runs\": {nontrivial}, \"distinct\": {}, \"fault_points\": {points}, \
         \"calls\": {}, \"steps\": {}, \"references\": {}, \"inconclusive\": {}, \"global_accesses\": {}, \"mnemonics\": {mnem}, \
         \"seconds\": {secs:.3}, \"faults\": {{{}}}, \"samples\": [{}], \"violation\": {violation}}}\n",
        tot.extra.load(Relaxed),
        hs.len(),
        tot.calls.load(Relaxed),
        tot.steps.load(Relaxed),
        tot.refs.load(Relaxed),
        tot.inconclusive.load(Relaxed),
        tot.global_accesses.load(Relaxed),
        faults.join(", "),
        samples.join(", "),
    );
    std::fs::write(a.get("out"), json).expect("write stats");
    code
}

/// Reproduce run `i`, write its decisions out, minimise, save, and replay in a fresh process.
fn minimise(a: &Args, tot: &'static Totals, i: u64, label: &str) -> Result<(String, String, String), String> {
    let prop = a.get("prop");
    let seed = a.num("seed", 1);
    let mask = gen::mask(prop);
    let mut x = Exec::new(Some(tot));
    let gi = if i < gen::EXTRA { a.num("first", 0) + i } else { i };
    let run = drive::numbered(&mut x, prop, seed, gi, DEBUG);
    let Verdict::Violation(class) = x.exec(&run, mask, false) else {
        return Err(format!("run {i} did not violate again"));
    };
    let mut best = run.clone();
    let mut execs = 0;
    let ex = x.explicit(&run);
    if x.exec(&ex, mask, false) == Verdict::Violation(class) {
        (best, execs) = x.shrink(&ex, mask, class);
    }
    if x.exec(&best, mask, false) != Verdict::Violation(class) {
        best = run.clone();
        if x.exec(&best, mask, false) != Verdict::Violation(class) {
            return Err(format!("run {i} is not reproducible"));
        }
    }
    let rep = x.report();
    let mut t = String::new();
    let _ = writeln!(t, "# property {prop}");
    let _ = writeln!(t, "# class {class:?}");
    let _ = writeln!(t, "# build {label}");
    let _ = writeln!(t, "# seed {seed} run {gi}");
    let _ = writeln!(t, "# thread {} step {}: {}", rep.tid, rep.step, rep.what.replace('\n', "\\n"));
    let _ = writeln!(t, "# event log {:016x}", rep.log);
    let _ = writeln!(t, "# minimised with {execs} executions; replay: sim replay THIS-FILE (build {label})");
    t += &best.text();
    let dir = a.get("replays");
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let path = format!("{dir}/{prop}-{label}-{seed}-{gi}.txt");
    std::fs::write(&path, t).map_err(|e| e.to_string())?;
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(me).arg("replay").arg(&path).output().map_err(|e| e.to_string())?;
    if out.status.code() != Some(1) {
        return Err(format!("replay of {path} in a fresh process did not reproduce:\n{}", String::from_utf8_lossy(&out.stdout)));
    }
    Ok((path, format!("{class:?}"), rep.what))
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let (mut prop, mut class, mut log) = (String::new(), String::new(), String::new());
    for l in text.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        match p.as_slice() {
            ["#", "property", v, ..] => prop = (*v).to_string(),
            ["#", "class", v, ..] => class = (*v).to_string(),
            ["#", "event", "log", v, ..] => log = (*v).to_string(),
            _ => {}
        }
    }
    let body: String = text.lines().filter(|l| !l.starts_with('#')).fold(String::new(), |s, l| s + l + "\n");
    let run = Run::parse(&body);
    let mut x = Exec::new(None);
    let v = x.exec(&run, gen::mask(&prop), false);
    let r = x.report();
    match v {
        Verdict::Violation(c) if c == Class::parse(&class) => {
            println!("reproduced {class} of {prop} at thread {} step {}: {}", r.tid, r.step, r.what);
            println!("event log {:016x} ({})", r.log, if format!("{:016x}", r.log) == log { "identical" } else { "differs" });
            1
        }
        Verdict::Clean | Verdict::Inconclusive => {
            println!("not reproduced ({v:?})");
            0
        }
        _ => {
            println!("other outcome: {v:?}: {}", r.what);
            2
        }
    }
}

fn show(a: &Args) -> i32 {
    let (prop, seed, i) = (a.get("prop"), a.num("seed", 1), a.num("run", 0));
    let mut x = Exec::new(None);
    let run = drive::numbered(&mut x, prop, seed, i, DEBUG);
    print!("{}", run.text());
    let v = x.exec(&run, gen::mask(prop), false);
    println!("{v:?} calls {} steps {} events {} log {:016x}", x.shm.calls, x.shm.steps, x.shm.ntrace, x.shm.log);
    0
}

fn logs(a: &Args) -> i32 {
    let tot: &'static Totals = sys::shared::<Totals>();
    if !run_workers(a, tot, true) {
        return 2;
    }
    for i in 0..a.num("runs", 1000) as usize {
        println!("{i} {:016x}", tot.logs[i].load(Relaxed));
    }
    println!("{} extra {:016x}", tot.extra.load(Relaxed), tot.extra_log.load(Relaxed));
    0
}
