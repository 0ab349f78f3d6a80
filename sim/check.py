#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: seeded search over simulated runs of libc3.

Exit 0: the property held on every run.  Exit 1 with a VIOLATION line: a run broke it; the
replay file reproduces it exactly.  Any other exit: the machinery failed (no verdict)."""
import glob, json, os, re, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
from props import PROPS

def die(msg):
    print("ERROR: " + msg, file=sys.stderr); sys.exit(2)

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in PROPS: die("unknown property " + prop)
    cfg = PROPS[prop]; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try: exe = build.build()
    except RuntimeError as e: die("build failed\n" + str(e)[-4000:])
    tb = time.time() - t0
    nw = max(1, min(8, os.cpu_count() or 1))
    runs = cfg["quick"] if tier == "quick" else cfg["thorough"]
    budget = float(os.environ.get("SIM_BUDGET", cfg.get("cap", 300) if tier == "quick" else 780))
    base = (seed * 1000003) % (1 << 40) + 1
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="simc3-") as tmp:
        ps = []
        for w in range(nw):
            n = (runs + nw - 1 - w) // nw
            cmd = [exe, "run", "--prop", prop, "--from", str(base + w), "--stride", str(nw), "--count", str(n), "--budget", str(budget),
                   "--out", f"{tmp}/w{w}", "--hashes", f"{tmp}/h{w}"]
            ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        # one worker that finds a violation is enough: stop the others
        done = [None] * nw; stop = False
        while any(d is None for d in done):
            for i, p in enumerate(ps):
                if done[i] is None and p.poll() is not None: done[i] = p.returncode
            if not stop and any(d in (1, 2) for d in done if d is not None):
                stop = True; tstop = time.time()
            if stop and time.time() - tstop > 25:
                for i, p in enumerate(ps):
                    if done[i] is None: p.terminate()
            time.sleep(0.02)
        res = []
        for w in range(nw):
            try: res.append(json.load(open(f"{tmp}/w{w}")))
            except (OSError, ValueError):
                if not stop: die(f"worker {w} gave no result (exit {done[w]}): {ps[w].stderr.read()[-2000:]}")
        viol = [r for r in res if r["violation"]]
        bad = [r for r in res if r["harness_error"]]
        replay = None
        if viol:
            # smallest (seed) first, so that the report does not depend on timing where possible
            order = sorted(range(nw), key=lambda w: next((r["seed"] for r in [json.load(open(f"{tmp}/w{w}"))] if r["violation"]), 1 << 62) if os.path.exists(f"{tmp}/w{w}") else 1 << 62)
            v = json.load(open(f"{tmp}/w{order[0]}"))
            replay = os.path.join(ROOT, "replays", f"{prop}-{v['seed']}.replay")
            open(replay, "w").write(open(f"{tmp}/w{order[0]}.replay").read())
            # gate: a fresh process must reproduce it exactly
            for _ in range(2):
                p = subprocess.run([exe, "replay", "--replay", replay], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                if p.returncode != 0: die(f"violation found (seed {v['seed']}: {v['sig']}: {v['msg']}) but its replay does not reproduce it exactly (exit {p.returncode})")
        elif bad: die("; ".join(r["harness_error"] for r in bad))
        # determinism: some of the seeds again, in one process instead of eight
        hashes = {}; sched = set()
        for w in range(nw):
            if os.path.exists(f"{tmp}/h{w}"):
                for line in open(f"{tmp}/h{w}"):
                    f = line.split()
                    if len(f) == 3: hashes[int(f[2])] = f[0]; sched.add(f[1])
        recheck = 0
        if not viol:
            k = min(40 if tier == "quick" else 400, len(hashes))
            p = subprocess.run([exe, "run", "--prop", prop, "--from", str(base), "--count", str(k), "--hashes", f"{tmp}/hd", "--out", f"{tmp}/wd"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for line in open(f"{tmp}/hd"):
                f = line.split(); recheck += 1
                if int(f[2]) in hashes and hashes[int(f[2])] != f[0]: die(f"seed {f[2]} does not repeat exactly: {hashes[int(f[2])]} then {f[0]}")
    wall = time.time() - t0
    def tot(k): return sum(r[k] for r in res)
    def merge(k):
        o = {}
        for r in res:
            for a, b in r[k].items(): o[a] = o.get(a, 0) + b
        return o
    samples = [s for r in res for s in r["samples"][:2]][:10]
    simtime = max(0.001, max((r["wall_ms"] for r in res), default=1) / 1000.0)
    known = tot("known"); kids = sorted({k for r in res for k in r["known_ids"]})
    probes = merge("probes"); need = cfg.get("probes", [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": tot("runs"), "distinct_nontrivial": min(len(set(hashes.values())), tot("nontrivial")),
            "rule": cfg["rule"] + " Counted: the smaller of the number of runs in which the premise was reached and the number of distinct recorded histories.",
            "samples": samples, "distinct_histories": len(set(hashes.values())), "distinct_interleavings": len(sched - {"0" * 16}),
            "runs_reaching_premise": tot("nontrivial"), "process_incarnations": tot("incarnations"), "runs_per_hour": int(tot("runs") / simtime * 3600),
            "simulated_time_basic_blocks": tot("steps"), "context_switches": tot("switches"), "faults_injected": {k: v for k, v in merge("faults").items() if v},
            "scenarios": merge("scenarios"), "probes": probes, "probes_never_reached": [p for p in need if not probes.get(p)],
            "coverage_points_reached": max((r["coverage_points"] for r in res), default=0), "seeds": {"first": base, "count": tot("runs")},
            "seeds_repeated_in_another_process": recheck, "real_components": cfg.get("real", "all of libc3 (every c3/*/*.c of the working tree), libc stdio, BLAS/LAPACK"),
            "stub_components": cfg.get("stub", "kernel file system (simulated disk), heap contents, rand()/srand(), time(), user callbacks, data tables of the two missing headers"),
            "build_s": round(tb, 1)},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in kids: print(f"KNOWN-FINDING: property={prop} {k}")
    if viol:
        print(f"{prop}: seed {v['seed']} scenario {v['scenario']}: {v['sig']}: {v['msg']} ({v['choices_before']} choices minimised to {v['choices']})")
        print(f"VIOLATION property={prop} replay={replay}"); sys.exit(1)
    missing = [p for p in need if not probes.get(p)]
    if missing and tier == "quick" and tot("runs") >= runs: print(f"note: states not reached in this run: {missing}")
    print(f"{prop}: {tot('runs')} runs, {len(set(hashes.values()))} distinct histories, {sum(merge('faults').values())} faults, {wall:.1f} s: held")

main()
