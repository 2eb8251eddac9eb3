#!/usr/bin/env python3
"""Driver of the checks:  run.py <ID> [--tier quick|thorough]

Builds the explorer of the property together with the sources of /repo's working tree, runs it in parallel
worker processes, confirms every violation by replaying it, writes /verif/evidence/<ID>.json.
exit 0: held; 1: VIOLATION line printed; 2: the check itself could not be completed.
"""
import glob, json, os, resource, shutil, subprocess, sys, tempfile, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIBAMI_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

WORKERS = 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(bd, spec):
    """library objects + explorer -> bd/x ; compiled in parallel"""
    cxx = spec.get("cxx", "g++")
    libflags = spec.get("libflags", ["-std=c++11", "-O2"])
    hflags = spec.get("hflags", ["-std=c++17", "-O2"])
    link = spec.get("link", [])
    jobs = []
    objs = []
    for s in sorted(glob.glob(REPO + "/src/*.cpp")):
        o = bd + "/lib_" + os.path.basename(s) + ".o"
        jobs.append([cxx, "-w", *libflags, "-I", REPO + "/src", "-c", s, "-o", o])
        objs.append(o)
    for s in spec["src"]:
        o = bd + "/h_" + os.path.basename(s) + ".o"
        jobs.append([cxx, "-w", *hflags, *spec.get("defs", []), "-I", REPO + "/src", "-I", HERE + "/mc", "-c", HERE + "/mc/" + s, "-o", o])
        objs.append(o)
    for extra in spec.get("plain_src", []):
        o = bd + "/p_" + os.path.basename(extra) + ".o"
        jobs.append(["g++" if cxx == "g++" else cxx, "-w", "-O2", "-std=c++17", "-c", HERE + "/mc/" + extra, "-o", o])
        objs.append(o)
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for j, p in zip(jobs, ps):
        out, _ = p.communicate()
        if p.returncode:
            print("build failed:", " ".join(j), "\n", out[-4000:])
            sys.exit(2)
    r = sh([cxx, *[f for f in hflags if f.startswith("-fsan") or f.startswith("-O")], *objs, "-o", bd + "/x", "-lquadmath", "-lpthread", *link])
    if r.returncode:
        print("link failed\n", r.stdout[-4000:])
        sys.exit(2)


def limits(mem):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def start(bd, spec, tier, seed, w, n, tag, only=None):
    cmd = [bd + "/x", "--tier", tier, "--seed", str(seed), "--worker", str(w), "--workers", str(n),
           "--out", f"{bd}/{tag}.json", "--cur", f"{bd}/{tag}.cur"]
    if only is not None:
        cmd += ["--only", str(only)]
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
                "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0", "MALLOC_PERTURB_": "165"})
    env.update(spec.get("env", {}))
    log = open(f"{bd}/{tag}.log", "w")
    return subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=bd,
                            preexec_fn=limits(spec.get("mem", 3 << 30)))


def result(bd, tag):
    try:
        return json.load(open(f"{bd}/{tag}.json"))
    except Exception:
        return None


def cur(bd, tag):
    try:
        b = open(f"{bd}/{tag}.cur", "rb").read(8)
        return int.from_bytes(b, "little", signed=True)
    except Exception:
        return -1


def tail(bd, tag):
    try:
        return open(f"{bd}/{tag}.log", errors="replace").read()[-1500:]
    except Exception:
        return ""


def run_one(bd, spec, tier, seed, idx, limit):
    """replay of exactly one case; -> (violated, text)"""
    tag = "replay"
    for f in (f"{bd}/{tag}.json", f"{bd}/{tag}.cur"):
        if os.path.exists(f):
            os.remove(f)
    p = start(bd, spec, tier, seed, 0, 1, tag, only=idx)
    try:
        rc = p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return True, "no answer within %d s" % limit
    r = result(bd, tag)
    if r and r["viol"]:
        return True, r["viol"][0][1]
    if r is None or rc != 0:
        return True, "the process died (status %s) %s" % (rc, tail(bd, tag))
    return False, ""


def run_stripe(bd, spec, tier, seed, w, n, limit):
    tag = "stripe"
    for f in (f"{bd}/{tag}.json", f"{bd}/{tag}.cur"):
        if os.path.exists(f):
            os.remove(f)
    p = start(bd, spec, tier, seed, w, n, tag)
    try:
        rc = p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return True, cur(bd, tag), "no answer within %d s" % limit
    r = result(bd, tag)
    if r and r["viol"]:
        return True, r["viol"][0][0], r["viol"][0][1]
    if r is None or rc != 0:
        return True, cur(bd, tag), "the process died (status %s) %s" % (rc, tail(bd, tag))
    return False, -1, ""


def known():
    try:
        return json.load(open(HERE + "/known_findings.json"))
    except Exception:
        return {"findings": []}


def report(pid, tier, seed, what, replay):
    os.makedirs(HERE + "/replay", exist_ok=True)
    path = f"{HERE}/replay/{pid}.json"
    json.dump({"property": pid, "tier": tier, "seed": seed, "what": what, **replay}, open(path, "w"), indent=1)
    print("violation:", what[:1500])
    print(f"VIOLATION property={pid} replay={path}")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    if "run" in spec:  # a check with its own driver
        sys.exit(spec["run"](pid, tier, seed))
    bd = tempfile.mkdtemp(prefix="mc_" + pid + "_")
    try:
        (spec["build"](bd, sh) if "build" in spec else build(bd, spec))
        tb = time.time() - t0
        n = spec.get("workers", WORKERS)
        budget = 840 if tier == "quick" else 6 * 3600
        ps = [start(bd, spec, tier, seed, w, n, f"w{w}") for w in range(n)]
        viols = []  # (idx or None, worker, text)
        died = set()  # workers that may have been ended from outside
        for w, p in enumerate(ps):
            try:
                rc = p.wait(max(1, budget - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            if rc in (-9, -13, 77):
                died.add(w)
            r = result(bd, f"w{w}")
            if r:
                for i, t in r["viol"]:
                    viols.append((i, w, t))
            elif rc == "timeout":
                viols.append((cur(bd, f"w{w}"), w, "budget exhausted"))
            else:
                viols.append((cur(bd, f"w{w}"), w, "the process died (status %s) %s" % (rc, tail(bd, f"w{w}"))))
        res = [r for r in (result(bd, f"w{w}") for w in range(n)) if r]
        again = set()
        code = 0
        confirmed = []
        kf = [k for k in known()["findings"] if k.get("property") == pid and k.get("status") == "open"]
        seen_known = set()
        viols.sort(key=lambda v: (v[0] is None, v[0]))
        unconfirmed = []
        for i, w, t in viols:
            if confirmed:
                break
            hit = next((k for k in kf if k["match"] in t), None)
            if hit:
                seen_known.add(hit["what"])
                continue
            if i is None or i < 0:
                unconfirmed.append(t)
                continue
            ok, text = run_one(bd, spec, tier, seed, i, spec.get("replay_limit", 120))
            if ok:
                confirmed.append((text, {"case": i, "how": f"case {i} alone: {spec.get('src', pid)} --only {i} --tier {tier}"}))
                continue
            ok, j, text = run_stripe(bd, spec, tier, seed, w, n, max(60, min(300, budget - (time.time() - t0))))
            if ok and j == i:
                confirmed.append((text, {"case": i, "worker": w, "workers": n, "how": "only after the preceding cases of its worker"}))
            elif not ok and w in died:
                r = result(bd, "stripe")  # it was ended from outside: its second run is complete and counts
                if r and w not in again:
                    again.add(w)
                    res.append(r)
            else:
                unconfirmed.append(t)
        for k in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k}")
        if confirmed:
            report(pid, tier, seed, confirmed[0][0], confirmed[0][1])
            code = 1
        elif unconfirmed:
            print("not reproducible, no verdict:", unconfirmed[:3])
            code = 2
        cnt, mx, outs, samples = {}, {}, set(), []
        total = 0
        for r in res:
            total = max(total, r["total"])
            for k, v in r["cnt"].items():
                cnt[k] = cnt.get(k, 0) + v
            for k, v in r["max"].items():
                mx[k] = max(mx.get(k, v), v)
            outs |= set(r["outcomes"])
            samples += r["samples"][:1]
        cases = sum(r["cases"] for r in res)
        states = cnt.pop("states", cases)
        trans = cnt.pop("transitions", 0)
        comps = cnt.pop("comparisons", 0)
        cov = {"states": states, "transitions": trans, "traces_validated_against_impl": comps,
               "samples": samples[:4], "cases": cases, "cases_enumerated": total,
               "exhaustive": code == 0 and cases == total * spec.get("passes", 1), "counters": cnt, "maxima": mx,
               "distinct_outcomes_seen": len(outs), "outcome_samples": sorted(outs)[:8],
               "space": spec["space"][tier] if isinstance(spec["space"], dict) else spec["space"],
               "build_s": round(tb, 1)}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(confirmed)}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
        # vacuity: a run that compared nothing is an error of the check
        if code == 0 and comps < spec.get("min_comparisons", 1):
            print(f"vacuous run: {comps} comparisons")
            code = 2
        print(f"{pid} {tier}: cases {cases}/{total} states {states} transitions {trans} comparisons {comps} "
              f"wall {ev['wall_s']} s (build {tb:.0f} s) exit {code}")
        print(" ", json.dumps(cnt), json.dumps(mx))
        sys.exit(code)
    finally:
        shutil.rmtree(bd, ignore_errors=True)


main()
