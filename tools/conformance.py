#!/usr/bin/env python3
"""Compares libvmpi with the installed MPI: the same program, 1..6 ranks, all observations equal."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run([sys.executable, f"{V}/tools/build.py", "c13"], check=True, stdout=subprocess.DEVNULL)
d = tempfile.mkdtemp(prefix="conf-"); bad = lines = 0
try:
    c = f"{V}/tools/conf"; b = f"{V}/build/plain"
    subprocess.run(["mpicxx", "-std=c++17", "-w", "-O1", f"{c}/real.cpp", "-o", f"{d}/real"], check=True)
    subprocess.run(["g++", "-std=c++17", "-w", "-O1", "-fPIC", f"-I{V}/vmpi", f"{c}/virt.cpp", "-o", f"{d}/virt", f"-L{b}", f"-Wl,-rpath,{b}", "-Wl,-z,now", "-lvmpi"], check=True)
    for n in range(1, 7):
        w = f"{d}/{n}"; os.mkdir(w)
        subprocess.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(n), f"{d}/real", w], check=True, timeout=300)
        p = subprocess.run([f"{d}/virt", w, str(n)], timeout=300); bad += p.returncode != 0
        for r in range(n):
            a = open(f"{w}/out-{n}-{r}").read().split("\n")
            for m in range(8):
                f = f"{w}/virt-{n}-{r}-{m}"
                if not os.path.exists(f): continue
                v = open(f).read().split("\n"); lines += len(v)
                for i, (x, y) in enumerate(zip(a + [""] * 9, v + [""] * 9)):
                    if x != y:
                        print(f"n={n} rank={r} mode={m} line {i}: MPI {x!r} vmpi {y!r} (before: {a[i-1]!r})"); bad += 1; break
finally:
    shutil.rmtree(d)
print(f"{lines} observation lines compared, {bad} differences"); sys.exit(bool(bad))
