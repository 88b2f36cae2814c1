#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [extra driver args]: build from /repo, explore, write evidence."""
import os, subprocess, sys, time, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
DRIVERS = json.load(open(os.path.join(VERIF, "tools", "drivers.json")))

def main():
    t0 = time.clock_gettime(time.CLOCK_MONOTONIC)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    extra = [a for a in sys.argv[2:] if a not in ("quick", "thorough")]
    d = DRIVERS[prop]
    flavor = d.get("flavor", "plain")
    b = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "build.py"), d["driver"], "--flavor", flavor], stdout=subprocess.PIPE, text=True)
    if b.returncode != 0:
        print(f"build of {d['driver']} failed")
        sys.exit(3)
    exe = b.stdout.strip().splitlines()[-1]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    env = dict(os.environ, MALLOC_PERTURB_="165", OMP_NUM_THREADS="1")
    budget = d.get("budget_quick", 600) if tier == "quick" else d.get("budget_thorough", 7200)
    cmd = [exe, "--tier", tier, "--evidence", os.path.join(VERIF, "evidence", prop + ".json"), "--replay-dir", os.path.join(VERIF, "replays"),
           "--known", os.path.join(VERIF, "known_findings.tsv"), "--budget", str(budget), "--t0", str(t0), "--seed", os.environ.get("VERIF_SEED", "1"),
           "--jobs", str(min(16, os.cpu_count() or 8))] + extra
    os.chdir(VERIF)
    r = subprocess.run(cmd, env=env)
    sys.exit(r.returncode if r.returncode in (0, 1) else 4)

main()
