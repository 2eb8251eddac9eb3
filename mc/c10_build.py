# Builds bd/x (library instrumented with callbacks, controlled scheduler) and bd/xt (ThreadSanitizer, free-running).
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIBAMI_REPO", "/repo")
COV = ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"]


def build(bd, sh):
    jobs, objs = [], {"x": [], "xt": []}
    inc = ["-I", REPO + "/src", "-I", HERE]
    for s in sorted(glob.glob(REPO + "/src/*.cpp")):
        b = os.path.basename(s)
        jobs.append(["clang++", "-w", "-O1", "-std=c++11", *COV, *inc, "-c", s, "-o", f"{bd}/x_{b}.o"])
        jobs.append(["clang++", "-w", "-g1", "-O1", "-std=c++11", "-fsanitize=thread", *inc, "-c", s, "-o", f"{bd}/xt_{b}.o"])
        objs["x"].append(f"{bd}/x_{b}.o")
        objs["xt"].append(f"{bd}/xt_{b}.o")
    jobs.append(["clang++", "-w", "-O1", "-std=c++17", *inc, "-c", HERE + "/c10.cpp", "-o", f"{bd}/x_h.o"])
    jobs.append(["clang++", "-w", "-g1", "-O1", "-std=c++17", "-DFREE", "-fsanitize=thread", *inc, "-c", HERE + "/c10.cpp", "-o", f"{bd}/xt_h.o"])
    objs["x"].append(f"{bd}/x_h.o")
    objs["xt"].append(f"{bd}/xt_h.o")
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for j, p in zip(jobs, ps):
        out, _ = p.communicate()
        if p.returncode:
            print("build failed:", " ".join(j), "\n", out[-4000:])
            sys.exit(2)
    for v, fl in (("x", []), ("xt", ["-fsanitize=thread"])):
        r = sh(["clang++", *fl, *objs[v], "-o", f"{bd}/{v}", "-lpthread"])
        if r.returncode:
            print("link failed\n", r.stdout[-4000:])
            sys.exit(2)
