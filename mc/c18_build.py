import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIBAMI_REPO", "/repo")
VAR = {
    "x0": ["clang++", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"],
    "x1": ["g++"],
}
VG = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--main-stacksize=64000000"]


def build(bd, sh):
    jobs, objs = [], {v: [] for v in VAR}
    for v, fl in VAR.items():
        for s in sorted(glob.glob(REPO + "/src/*.cpp")) + [HERE + "/c18.cpp"]:
            o = f"{bd}/{v}_{os.path.basename(s)}.o"
            objs[v].append(o)
            jobs.append([fl[0], "-w", "-g1", "-O1", "-std=c++17" if s.startswith(HERE) else "-std=c++11", *fl[1:], "-I", REPO + "/src", "-I", HERE, "-c", s, "-o", o])
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for j, p in zip(jobs, ps):
        out, _ = p.communicate()
        if p.returncode:
            print("build failed:", " ".join(j), "\n", out[-4000:])
            sys.exit(2)
    for v, fl in VAR.items():
        r = sh([*fl, *objs[v], "-o", f"{bd}/{v}", "-lquadmath" if v == "x1" else "-lm"])
        if r.returncode:
            print("link failed\n", r.stdout[-4000:])
            sys.exit(2)
    # the first workers: address and undefined behaviour; the others: uninitialised memory; a replay does both
    with open(bd + "/x", "w") as f:
        f.write(f"""#!/usr/bin/env python3
import os, subprocess, sys
a = sys.argv[1:]
k = dict(zip(a[::2], a[1::2]))
cmd = [["{bd}/x0"], {VG!r} + ["{bd}/x1"]]
if k["--workers"] == "1":
    for c in cmd:
        r = subprocess.run([*c, *a]).returncode
        if r: sys.exit(r if r > 0 else 99)
    sys.exit(0)
w, n = int(k["--worker"]), int(k["--workers"])
m = n // 4
v = 0 if w < m else 1
k["--worker"], k["--workers"] = str(w if v == 0 else w - m), str(m if v == 0 else n - m)
c = cmd[v] + [y for x in k.items() for y in x]
os.execvp(c[0], c)
""")
    os.chmod(bd + "/x", 0o755)
