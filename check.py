#!/usr/bin/env python3
"""check.py <ID> | --setup | --all   Builds and runs the check(s) of a property against /repo's working tree."""
import json, os, subprocess, sys, tempfile, time, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HUIRA_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS, LIBS, ASAN, CXX

def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, _ = p.communicate()
        return -999, o.decode("utf-8", "replace")

def compile_prog(pid, k, prog, scratch):
    exe = os.path.join(scratch, "p%d" % k)
    src = os.path.join(V, "harness", prog["src"])
    cc = prog.get("cxx", "g++")
    base = [cc] + CXX + ["-I" + d for d in prog.get("inc_first", [])] + ["-I" + V + "/lib", "-I" + V + "/stub", "-I" + REPO + "/include",
           "-DVERIF_DIR=\"%s\"" % V, "-DHUIRA_DEFAULT_DATA_DIR=\"%s/data\"" % REPO] + [f.replace("@V@", V).replace("@R@", REPO) for f in prog.get("flags", ASAN)]
    parts = prog.get("parts", [None])
    def one(i):
        obj = "%s_%d.o" % (exe, i)
        extra = [] if parts[i] is None else ["-DPART=%s" % parts[i]]
        return sh(base + extra + ["-c", src, "-o", obj], 850) + (obj,)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(parts))))
    for rc, o, _ in res:
        if rc: return rc, o, exe
    objs = [r[2] for r in res]
    for i, x in enumerate(prog.get("extra_src", [])):
        obj = "%s_x%d.o" % (exe, i)
        rc, o = sh([cc, "-std=c++20", "-O2", "-g", "-fPIC", "-w", "-I" + V + "/lib"] + ["-c", os.path.join(V, x), "-o", obj], 600)
        if rc: return rc, o, exe
        objs.append(obj)
    rc, o = sh([cc] + [f for f in prog.get("flags", ASAN) if f.startswith("-fsan") and "thread" not in f] + prog.get("ldflags", []) + objs + ["-o", exe] + prog.get("libs", LIBS), 600)
    return rc, o, exe

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        rc, o = sh(["g++", "--version"], 60); print(o.split("\n")[0]); return rc
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    C = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="huira_%s_" % pid)
    try:
        return run(pid, C, tier, seed, t0, scratch)
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(scratch, ignore_errors=True)
        else: print("kept", scratch)

def run(pid, C, tier, seed, t0, scratch):
    progs = C["progs"]
    only = os.environ.get("VERIF_PROG")
    with cf.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda kp: compile_prog(pid, kp[0], kp[1], scratch), list(enumerate(progs))))
    for rc, o, exe in built:
        if rc:
            print(o[-6000:]); print("ERROR: harness for %s does not compile" % pid); return 2
    tc = time.time() - t0
    jobs = []
    for k, prog in enumerate(progs):
        n = prog.get("shards", 8)
        for s in range(n): jobs.append((k, s, n))
    budget = 840 if tier == "quick" else 4 * 3600
    def runjob(j):
        k, s, n = j
        sd = os.path.join(scratch, "s%d_%d" % (k, s)); os.makedirs(sd)
        out = os.path.join(sd, "out.json")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=1:max_allocation_size_mb=2048:hard_rss_limit_mb=3500",
                   UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98", TSAN_OPTIONS="exitcode=96", HOME=sd, XDG_STATE_HOME=sd, LC_ALL="C")
        env.update(progs[k].get("env", {}))
        cmd = [built[k][2], "--tier", tier, "--seed", str(seed), "--shard", str(s), "--nshards", str(n), "--out", out, "--scratch", sd]
        rc, o = sh(cmd, max(60, budget - (time.time() - t0)), cwd=sd, env=env)
        cur = ""
        try: cur = open(out + ".cur", "rb").read().split(b"\0")[0].decode("latin1")
        except OSError: pass
        res = None
        try: res = json.load(open(out))
        except Exception: pass
        return j, rc, o, cur, res
    with cf.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(runjob, jobs))
    counters, samples, viol, exhaustive, errors = {}, [], [], True, []
    per_prog = {}
    for (k, s, n), rc, o, cur, res in results:
        if res and res.get("done") and rc == 0:
            for c, v in res["counters"].items():
                if c.startswith("max_"): counters[c] = max(counters.get(c, 0), v)
                else: counters[c] = counters.get(c, 0) + v
            exhaustive &= res["exhaustive"]
            samples += res["samples"]
            viol += res["violations"]
        else:
            tail = o[-3000:]
            what = "hang" if ("MC-HANG" in o or rc == -999) else "crash"
            if rc == 96 or "ThreadSanitizer" in o: what = "race"
            summ = [l for l in o.split("\n") if "SUMMARY" in l or "runtime error" in l or "ERROR: AddressSanitizer" in l]
            if not cur and what == "crash": errors.append(tail); continue
            viol.append(dict(key=what, where=cur, detail=(" | ".join(summ[:2]) or "exit status %d" % rc) + "\n" + tail[-1200:]))
    known = [f for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if f["property"] == pid and f["status"] == "known"]
    seen_known, fresh = {}, []
    import re
    for v in viol:
        m = next((f for f in known if re.fullmatch(f["key"], v["key"]) and re.search(f["where"], v["where"])), None)
        if m: seen_known[m["what"]] = seen_known.get(m["what"], 0) + 1
        else: fresh.append(v)
    for w in seen_known: print("KNOWN-FINDING: property=%s %s" % (pid, w))
    rc = 0
    rdir = os.path.join(V, "replays"); 
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % pid)
        json.dump(dict(property=pid, tier=tier, command="python3 check.py %s %s" % (pid, tier), violations=fresh[:200]), open(path, "w"), indent=1)
        keys = {}
        for v in fresh: keys.setdefault(v["key"], []).append(v)
        for kx, vs in keys.items():
            print("  [%s] x%d  case: %s\n      %s" % (kx, len(vs), vs[0]["where"][:600], vs[0]["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path)); rc = 1
    if errors and rc == 0:
        print("\n".join(errors)[-5000:]); print("ERROR: harness for %s failed before its first case" % pid); rc = 2
    cov = dict(counters)
    cov["samples"] = samples[:6]
    cov["exhaustive"] = bool(exhaustive)
    if C["level"] in ("exploration", "fault_enumeration"):
        cov["rule"] = C["rule"]; cov.setdefault("evaluations", 0); cov.setdefault("distinct_nontrivial", 0)
    else:
        for c in ("states", "transitions", "traces_validated_against_impl"): cov.setdefault(c, 0)
        cov["rule"] = C["rule"]
    ev = dict(property=pid, tier=tier, seed=seed, level=C["level"], coverage=cov, assumptions=C.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %s compile=%.1fs total=%.1fs %s" % (pid, tier, "ok" if rc == 0 else "NOT OK", tc, time.time() - t0, {c: v for c, v in counters.items()}))
    return rc

if __name__ == "__main__":
    sys.exit(main())
