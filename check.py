#!/usr/bin/env python3
"""Decide one property by deterministic simulation: check.py C01..C10

Builds the simulator with /repo's current working tree (twice: raki unoptimised with debug
assertions, and optimised), runs a fixed number of seeded runs with each, writes
evidence/<id>.json.  Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: harness error.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
FINDINGS = os.path.join(VERIF, "known-findings.txt")

# runs per (tier, build)
RUNS = {
    "C01": ((36_000, 56_000), (400_000, 600_000)),
    "C02": ((64_000, 96_000), (600_000, 900_000)),
    "C03": ((36_000, 56_000), (400_000, 600_000)),
    "C04": ((48_000, 128_000), (400_000, 900_000)),
    "C05": ((160_000, 240_000), (1_200_000, 1_600_000)),
    "C06": ((40_000, 40_000), (240_000, 240_000)),
    "C07": ((120_000, 200_000), (900_000, 1_200_000)),
    "C08": ((48_000, 64_000), (400_000, 500_000)),
    "C09": ((48_000, 64_000), (400_000, 500_000)),
    "C10": ((64_000, 160_000), (500_000, 900_000)),
}

RULE = {
    "C01": "A run renders 20..160 words (one value or a session of 2..5) into sinks that refuse: every call position in "
           "turn, a seeded byte, or a simulated I/O device. Distinct and non-trivial: distinct hash of (calls, what each sink "
           "accepted, how each rendering ended) among runs in which at least one sink fault fired.",
    "C02": "A run renders 20..160 words into sinks that accept everything in the end (short writes, EINTR, tiny buffers, byte "
           "slices). Distinct and non-trivial: distinct hash of (calls, texts, endings) among runs in which at least one short "
           "or interrupted write happened.",
    "C03": "As C01 with torn writes, one-time refusals and panicking sinks. Distinct and non-trivial: distinct hash of (calls, "
           "what each sink accepted, endings) among runs in which at least one sink fault fired.",
    "C04": "A run is 2..10 (rarely 20) real threads, 1..9 calls each, one runs at a time, switches drawn from the seed at any yield point; in "
           "40% of the runs stores to globals may be seen late by other threads (out of order, or in order but past later loads). "
           "Every 47th group of 16 runs draws from one word of every encoding, every 31st from many operands of few encodings. Distinct and non-trivial: distinct hash of (calls, every switch with its thread, call and "
           "step) among runs with at least one switch inside a call.",
    "C05": "A run is 1..12 calls interrupted by nested calls (depth up to 9, in an eighth of the runs 24) at any yield point, or "
           "re-entered from the sink. Distinct and non-trivial: distinct hash of (calls, every interruption with its step) among "
           "runs with at least one interruption or re-entry.",
    "C06": "A run is a history of up to 60 calls per thread (every 256th run: 30k/300k calls in one process; "
           "release build, every 5008th: 18 million calls) with failing and "
           "panicking sinks and calls abandoned half-way. Distinct and non-trivial: distinct hash of (calls, abandonments with "
           "their step) among runs in which a sink fault fired or a call was abandoned.",
    "C07": "A run is 2..10 (rarely 20) threads of which up to all but one are stopped for good at any step inside a call, or one thread "
           "making 40..200 calls on fresh words. Distinct and non-trivial: distinct hash of (calls, stops and switches with their "
           "step) among runs in which a thread was stopped or switched inside a call or a sink fault fired.",
    "C08": "A run makes 10..120 calls with every (or every second) allocation failing. Distinct and non-trivial: distinct hash "
           "of the calls among runs with the allocator failing during at least one call.",
    "C09": "A run makes 10..120 calls in a process whose system calls are denied, whose clock, environment, randomness and "
           "time-stamp counter lie, on a poisoned and shifted stack. Distinct and non-trivial: distinct hash of the calls among "
           "runs with at least one such call.",
    "C10": "A run is 1..3 threads that decode values into shared slots, move, render, compare and inspect them later between "
           "other calls. Distinct and non-trivial: distinct hash of (calls, switches with their step) among runs in which a "
           "switch inside a call or a sink fault happened.",
}


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def build():
    env = dict(os.environ)
    env.update({
        "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
        "RUSTC_WRAPPER": os.path.join(SIM, "rustc-wrap.sh"), "CARGO_TARGET_DIR": TARGET, "CARGO_INCREMENTAL": "0",
    })
    for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(v, None)
    # always rebuild raki from the working tree, whatever the file times say
    for prof in ("debug", "release"):
        for d in glob.glob(os.path.join(TARGET, prof, ".fingerprint", "raki-*")):
            shutil.rmtree(d, ignore_errors=True)
    procs = []
    for args in ([], ["--release"]):
        procs.append(subprocess.Popen(["cargo", "build", "--offline", "--quiet", *args], cwd=SIM, env=env,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    outs = [p.communicate()[0] for p in procs]
    for p, o in zip(procs, outs):
        if p.returncode != 0:
            sys.stderr.write(o[-4000:])
            die("build failed")


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        build()
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in RUNS:
        die("usage: check.py setup|C01..C10")
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("VERIF_TIER must be quick or thorough")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED must be an integer")
    build()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    runs = RUNS[prop][0 if tier == "quick" else 1]
    cap = 150 if tier == "quick" else 6000
    workers = str(min(8, os.cpu_count() or 1))
    parts, violation = [], None
    for prof, label, n in (("debug", "dev", runs[0]), ("release", "release", runs[1])):
        out = os.path.join(REPLAYS, f"stats-{prop}-{label}.json")
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.run([os.path.join(TARGET, prof, "sim"), "check", "--prop", prop, "--seed", str(seed % (1 << 63)),
                            "--runs", str(n), "--secs", str(cap), "--workers", workers, "--label", label,
                            "--out", out, "--replays", REPLAYS])
        if p.returncode not in (0, 1):
            die(f"simulator exited with {p.returncode}")
        with open(out) as f:
            st = json.load(f)
        st["planned"] = n
        parts.append(st)
        if p.returncode == 1:
            violation = st["violation"]
            break

    def tot(k):
        return sum(x[k] for x in parts)

    faults = {}
    for x in parts:
        for k, v in x["faults"].items():
            faults[k] = faults.get(k, 0) + v
    secs = max(0.001, tot("seconds"))
    real = ["raki: all of it, compiled from /repo (decode, parse_*, TryFrom, Display, Debug, PartialEq)",
            "core::fmt and std::io adapters (write_fmt, BufWriter, LineWriter, byte slices)",
            "threads: real OS threads, one running at a time, switched only by the simulator"]
    stub = ["sinks and I/O devices", "allocator (in the call's window)", "system calls, clock, environment, randomness, "
            "time-stamp counter (in the call's window)", "scheduler"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs") + tot("extra"),
            "distinct_nontrivial": tot("distinct"),
            "rule": RULE[prop] + " Counted per build and summed over the two builds (raki unoptimised / optimised).",
            "samples": [s for x in parts for s in x["samples"]],
            "simulated_runs": {x["label"]: x["runs"] for x in parts},
            "planned_runs": {x["label"]: x["planned"] for x in parts},
            "extra_runs_for_state_met": {x["label"]: x["extra"] for x in parts},
            "seeds_per_hour": int((tot("runs") + tot("extra")) / secs * 3600),
            "simulated_time": {"unit": "logical steps: yield points passed (basic blocks of raki, its accesses to memory others "
                                       "can see, its atomic operations, sink calls)", "steps": tot("steps")},
            "library_calls": tot("calls"),
            "fresh_process_references": tot("references"),
            "faults_fired": faults,
            "distinct_fault_points": {"measure": "distinct (kind of instruction, view, step or byte inside the call, kind of "
                                                  "decision or ending) at which a decision or sink fault fell, per build, summed "
                                                  "(hashed into 2^27 bits)", "count": tot("fault_points")},
            "distinct_mnemonics_or_errors_rendered": {x["label"]: x["mnemonics"] for x in parts},
            "accesses_to_writable_globals": tot("global_accesses"),
            "inconclusive_runs": tot("inconclusive"),
            "components_real": real, "components_simulated": stub,
        },
        "assumptions": ["interleavings are sequentially consistent except for late plain, relaxed and (in order) release stores",
                        "core and std themselves are trusted and have no yield points"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if violation:
        ev["coverage"]["violation"] = violation
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print(f"{prop} {tier} seed={seed}: {tot('runs') + tot('extra')} runs, {tot('distinct')} distinct, {tot('calls')} calls, "
          f"{tot('steps')} steps, {sum(faults.values())} faults, {ev['wall_s']} s")
    if violation:
        known = []
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as f:
                known = [l for l in f if l.startswith(f"known: property={prop} class={violation['class']} ")]
        for l in known:
            # "known: property=ID class=CLASS match=TEXT :: what fails"
            m, _, what = l.split("match=", 1)[1].partition(" :: ")
            if m in violation["what"]:
                print(f"KNOWN-FINDING: property={prop} {what.strip()}")
                return 0
        print(f"{violation['class']} in run {violation['run']}: {violation['what']}")
        print(f"VIOLATION property={prop} replay={violation['replay']}")
        return 1
    if tot("inconclusive") * 5 > tot("runs") + tot("extra"):
        die("too many runs could not be judged")
    if any(x["runs"] < x["planned"] for x in parts):
        print("note: stopped before all planned runs (time cap)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
