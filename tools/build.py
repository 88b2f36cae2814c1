#!/usr/bin/env python3
"""Builds a driver against /repo's current sources and the virtual MPI.

build.py DRIVER [--flavor plain|tsan|asan]  ->  prints the path of the executable
"""
import glob, os, subprocess, sys, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

def sources():
    s = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                s.append(os.path.join(root, f))
    return sorted(s)

def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def main():
    driver = sys.argv[1]
    flavor = "plain"
    if "--flavor" in sys.argv:
        flavor = sys.argv[sys.argv.index("--flavor") + 1]
    bdir = os.path.join(VERIF, "build", flavor)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    opt = os.environ.get("VERIF_OPT", "-O1")
    defs = "-DNDEBUG -DDISCOTEC_USE_LZ4 -DTIMING -DBOOST_SERIALIZATION_DYN_LINK"
    base = f"-std=c++17 {opt} -fPIC -w -fno-strict-aliasing -fno-omit-frame-pointer {defs} -I{VERIF}/vmpi -I{VERIF}/drivers -I{REPO}/src -I{REPO}"
    repoflags = base + " -fopenmp"
    if flavor == "tsan":
        repoflags += " -fsanitize=thread -g1"
    if flavor == "asan":
        repoflags += " -D_GLIBCXX_ASSERTIONS"
    if flavor == "cov":
        repoflags += " -g1 -fsanitize-coverage=trace-pc"
    rules = [
        "ninja_required_version = 1.5",
        "rule cxx\n  command = g++ -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
        "rule so\n  command = g++ -shared -Wl,-Bsymbolic-functions -Wl,-soname,libvmpi.so -o $out $in -ldl",
        "rule exe\n  command = g++ -o $out $in -Wl,-z,now -L%s -Wl,-rpath,%s -Wl,--no-as-needed -lvmpi -lboost_serialization -lboost_date_time -lboost_system -lboost_program_options -llz4 -lglpk -lpthread -ldl" % (bdir, bdir),
    ]
    vflags = f"-std=c++17 -O2 -g -fno-omit-frame-pointer -fPIC -Wall -Wno-unused-function -Wno-misleading-indentation -I{VERIF}/vmpi"
    vobjs = []
    for s in sorted(glob.glob(f"{VERIF}/vmpi/*.cpp")):
        o = f"{bdir}/vmpi_{os.path.basename(s)}.o"
        vobjs.append(o)
        rules.append(f"build {esc(o)}: cxx {esc(s)}\n  flags = {vflags}")
    so = f"{bdir}/libvmpi.so"
    rules.append(f"build {esc(so)}: so {' '.join(map(esc, vobjs))}")
    objs = []
    if flavor == "tsan":
        o = f"{bdir}/tsan_callbacks.o"
        objs.append(o)
        rules.append(f"build {esc(o)}: cxx {esc(VERIF)}/vmpi/tsan/callbacks.cpp\n  flags = -std=c++17 -O2 -fno-omit-frame-pointer -fPIC -fno-builtin -fno-tree-loop-distribute-patterns -w")
    for s in sources():
        o = f"{bdir}/obj/{os.path.relpath(s, REPO).replace('/', '__')}.o"
        objs.append(o)
        rules.append(f"build {esc(o)}: cxx {esc(s)}\n  flags = {repoflags}")
    # the broker between two systems is an executable of its own: its main becomes a function
    tlm = []
    for s in sorted(glob.glob(f"{REPO}/third_level_manager/*.cpp")):
        if os.path.basename(s).startswith("test_"):
            continue
        o = f"{bdir}/obj/{os.path.relpath(s, REPO).replace('/', '__')}.o"
        tlm.append(o)
        rules.append(f"build {esc(o)}: cxx {esc(s)}\n  flags = {repoflags} -Dmain=tlm_main")
    # the tool that writes the subspace sizes for coupled systems, likewise
    swr = []
    for s in sorted(glob.glob(f"{REPO}/tools/subspace_writer/*.cpp")):
        o = f"{bdir}/obj/{os.path.relpath(s, REPO).replace('/', '__')}.o"
        swr.append(o)
        rules.append(f"build {esc(o)}: cxx {esc(s)}\n  flags = {repoflags} -Dmain=subspace_writer_main")
    # the tool that compares two plot files, likewise
    ecl = [f"{bdir}/obj/tools__errorCalc.cpp.o"]
    rules.append(f"build {esc(ecl[0])}: cxx {esc(REPO)}/tools/errorCalc.cpp\n  flags = {repoflags} -Dmain=errorCalc_main")
    # one library list, all drivers
    for d in sorted(glob.glob(f"{VERIF}/drivers/*.cpp")):
        name = os.path.basename(d)[:-4]
        o = f"{bdir}/drv_{name}.o"
        rules.append(f"build {esc(o)}: cxx {esc(d)}\n  flags = {repoflags}")
        rules.append(f"build {esc(bdir)}/{name}: exe {esc(o)} {' '.join(map(esc, objs + (tlm if '"third_level_manager/' in open(d).read() else []) + (swr if 'subspace_writer_main' in open(d).read() else []) + (ecl if 'errorCalc_main' in open(d).read() else [])))} | {esc(so)}")
    nf = f"{bdir}/build.ninja"
    txt = "\n".join(rules) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    targets = [f"{bdir}/{driver}"]
    r = subprocess.run(["ninja", "-C", bdir, "-f", nf, "-j8"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.exit(3)
    print(f"{bdir}/{driver}")

main()
