import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIBAMI_REPO", "/repo")


def build(bd, sh):
    """pyami from the working tree, and the probe, linked with the same library objects; /repo's own flags (C++14)"""
    py = "/usr/bin/python3"
    inc = subprocess.run([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()
    base = ["g++", "-w", "-std=c++14", "-fPIC", "-fvisibility=hidden", "-I" + inc, "-I", REPO + "/src", "-I", REPO + "/pyami_src"]
    jobs, lib, mod = [], [], []
    for s in sorted(glob.glob(REPO + "/src/*.cpp")):
        o = bd + "/lib_" + os.path.basename(s) + ".o"
        lib.append(o)
        jobs.append([*base, "-O2", "-c", s, "-o", o])
    for s in sorted(glob.glob(REPO + "/pyami_src/*.cpp")):
        o = bd + "/mod_" + os.path.basename(s) + ".o"
        mod.append(o)
        jobs.append([*base, "-O0", "-c", s, "-o", o])
    jobs.append([*base, "-O0", "-c", HERE + "/c15_probe.cpp", "-o", bd + "/probe.o"])
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for j, p in zip(jobs, ps):
        out, _ = p.communicate()
        if p.returncode:
            print("build failed:", " ".join(j), "\n", out[-4000:])
            sys.exit(2)
    for objs, name in ((mod, "pyami"), ([bd + "/probe.o"], "ami_probe")):
        r = sh(["g++", "-shared", "-o", bd + "/" + name + ".so", *objs, *lib])
        if r.returncode:
            print("link failed\n", r.stdout[-4000:])
            sys.exit(2)
    with open(bd + "/x", "w") as f:
        f.write(f'#!/bin/sh\nexec {py} -B {HERE}/c15_worker.py {bd} "$@"\n')
    os.chmod(bd + "/x", 0o755)
