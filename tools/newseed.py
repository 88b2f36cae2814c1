#!/usr/bin/env python3
"""newseed.py ID PROPERTY NRANKS FILE  (reads JSON {old,new,needs,breaks,demo} from stdin): writes seeded/ID."""
import json, os, subprocess, sys, difflib
sid, prop, n, f = sys.argv[1:5]
o = json.load(sys.stdin) if False else eval(sys.stdin.read())
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sid)
os.makedirs(d, exist_ok=True)
edits = o.get("edits") or [(f, o["old"], o["new"])]
patch = ""
files = {}
for (fn, a, b) in edits:
    s = files.get(fn) or open("/repo/" + fn).read()
    assert s.count(a) == 1, (fn, s.count(a), a)
    files[fn] = s.replace(a, b)
for fn, t in files.items():
    s = open("/repo/" + fn).read()
    patch += "".join(difflib.unified_diff(s.splitlines(True), t.splitlines(True), "a/" + fn, "b/" + fn))
open(d + "/patch.diff", "w").write(patch)
open(d + "/demo.cpp", "w").write(o["demo"])
open(d + "/demo.sh", "w").write("""#!/bin/bash
# builds the demonstration against /repo's library and runs it in a scratch directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=%s OMP_WAIT_POLICY=passive TMPDIR=$tmp OMPI_MCA_rmaps_base_oversubscribe=1
mpicxx -std=c++17 -O1 -w -fopenmp -DNDEBUG -DDISCOTEC_USE_LZ4 -DTIMING -DBOOST_SERIALIZATION_DYN_LINK -I"$repo/src" -I"$repo/tests" -I"$repo" -o "$tmp/demo" "$here/demo.cpp" "$repo/_build/src/libdiscotec.a" -lboost_serialization -lboost_date_time -lboost_system -lboost_program_options -llz4 -lglpk -lpthread %s
cd "$tmp"
timeout -k 5 %s mpirun --oversubscribe -n %s ./demo > out.txt 2>&1 || { tail -5 out.txt; exit 1; }
""" % (o.get("threads", 1), o.get("extra", ""), o.get("timeout", 60), n))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": o["needs"], "what_it_breaks": o["breaks"]}, open(d + "/meta.json", "w"), indent=1)
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
print(sid, "apply", r.returncode)
