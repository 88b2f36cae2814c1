#!/usr/bin/env python3
"""coverage.py [PROP...]: which lines of the library do the quick checks execute?  Writes build/cov/report.txt.
A development tool, no check depends on it."""
import json, os, re, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get("VERIF_REPO", "/repo")
D = json.load(open(V + "/tools/drivers.json"))
props = sys.argv[1:] or [p for p in sorted(D) if not p.startswith("_")]
hit = collections.defaultdict(set); seen = collections.defaultdict(set)
for p in props:
    drv = D[p]["driver"]
    exe = subprocess.run([sys.executable, V + "/tools/build.py", drv, "--flavor", "cov"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip().splitlines()[-1]
    f = f"{V}/build/cov/{drv}.map"
    if os.path.exists(f) and os.environ.get("REUSE"): r = None
    else:
      if os.path.exists(f): os.remove(f)
      r = subprocess.run([exe, "--known", V + "/known_findings.tsv", "--jobs", os.environ.get("JOBS", "8")], env=dict(os.environ, VMPI_COV=f, OMP_NUM_THREADS="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V + "/build/cov")
    if r: print(p, r.stdout.strip().splitlines()[-1][:160], flush=True)
    calls = []
    o = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True)
    want = False
    for l in o.stdout:
        if want:
            m = re.match(r"\s*([0-9a-f]+):", l)
            if m: calls.append(int(m.group(1), 16)); want = False
        if "call" in l and "__sanitizer_cov_trace_pc" in l: want = True
    bits = open(f, "rb").read()
    a = subprocess.run(["addr2line", "-e", exe], input="\n".join(hex(x) for x in calls), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for x, loc in zip(calls, a):
        m = re.match(re.escape(R) + r"/(\S+):(\d+)", os.path.normpath(loc.split(" ")[0]))
        if not m: continue
        seen[m.group(1)].add(int(m.group(2)))
        if bits[x]: hit[m.group(1)].add(int(m.group(2)))
with open(V + "/build/cov/report.txt", "w") as g:
    for f in sorted(seen):
        miss = sorted(seen[f] - hit[f])
        print(f"{f}: {len(hit[f])}/{len(seen[f])}", file=g)
        src = open(f"{R}/{f}").read().split("\n")
        for m in miss: print(f"   {m}: {src[m-1].strip()[:120] if m <= len(src) else ""}", file=g)
