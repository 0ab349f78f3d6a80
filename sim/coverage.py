#!/usr/bin/env python3
"""coverage.py RUNS [PROP...]: which basic blocks of libc3 the scenarios reach, per function (development aid)."""
import os, re, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
from props import PROPS
exe = build.build(); runs = sys.argv[1]; props = sys.argv[2:] or sorted(PROPS)
seen = bytearray(1 << 20)
with tempfile.TemporaryDirectory() as t:
    def one(p): subprocess.run([exe, "run", "--prop", p, "--from", "1", "--count", runs, "--out", f"{t}/{p}"], env=dict(os.environ, SIM_COV=f"{t}/{p}.cov"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, props))
    for p in props:
        for i, b in enumerate(open(f"{t}/{p}.cov", "rb").read()):
            if b: seen[i] = 1
d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout
pts = []; fn = ""; want = False
for line in d.split("\n"):
    m = re.match(r"[0-9a-f]+ <(.*)>:$", line)
    if m: fn = m.group(1); continue
    m = re.match(r"\s*([0-9a-f]+):\s", line)
    if m and want: pts.append((int(m.group(1), 16), fn)); want = False
    if "<__sanitizer_cov_trace_pc>" in line and "call" in line: want = True
a = subprocess.run(["addr2line", "-e", exe], input="\n".join(hex(p) for p, _ in pts), capture_output=True, text=True).stdout.split("\n")
byf = {}
for (pc, fn), loc in zip(pts, a):
    f, _, l = loc.partition(":"); l = l.split()[0] if l else "?"
    hit = seen[(pc ^ (pc >> 20)) & ((1 << 20) - 1)]
    e = byf.setdefault((os.path.basename(f), fn), [0, 0, set()]); e[0] += 1; e[1] += hit
    if not hit: e[2].add(l)
for (f, fn), (n, h, miss) in sorted(byf.items()): print(f"{f} {fn} {h}/{n} " + ("" if h == n else "missing " + ",".join(sorted(miss, key=lambda x: (len(x), x))[:40])))
print("TOTAL", sum(v[1] for v in byf.values()), "of", sum(v[0] for v in byf.values()))
