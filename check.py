#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Rebuilds the code of /repo together with the harnesses that decide the property, explores all their configurations on
all cores, confirms a violation by replaying it, and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: violation (a VIOLATION line is printed); 2: the check itself failed.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = max(2, os.cpu_count() or 8)

sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan  # property -> harnesses, levels, notes

INC = ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/external" % REPO, "-I%s" % REPO, "-I%s/mc" % VERIF, "-I%s/harness" % VERIF]

def have(c): return shutil.which(c) is not None

def flags(kind):
    if kind == "race":
        if have("clang++"):
            return ["clang++", "-std=c++20", "-O1", "-g", "-fPIC", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
        return ["g++", "-std=c++20", "-O1", "-g", "-fPIC", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
    if kind == "seq":
        return ["g++", "-std=c++20", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    raise ValueError(kind)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def repo_headers():
    out = []
    for d in ("include", "src"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in fs if not f.endswith(".cpp")]
    return out

def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))

class BuildError(Exception): pass

def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def compile_obj(cc, src, hdr_digest):
    """Compiles src unless an object made from the same contents exists."""
    key = digest([src], " ".join(cc) + hdr_digest)
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(src), key))
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        run_cc(cc + INC + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj

def build(harnesses):
    """Returns {harness: executable}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    rh = digest(repo_headers())
    vh = digest(glob.glob(VERIF + "/mc/*.h") + glob.glob(VERIF + "/harness/*.h"), rh)
    kinds = {plan.HARNESS[h] for h in harnesses}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        rt = None
        if "race" in kinds:
            def mk_rt():
                src = VERIF + "/mc/mcrt.cpp"
                key = digest([src, VERIF + "/mc/mc.h"])
                so = os.path.join(BUILD, "bin", "libmcrt-%s.so" % key)
                if not os.path.exists(so):
                    tmp = "%s.%d.tmp" % (so, os.getpid())
                    run_cc(["g++", "-std=c++20", "-O2", "-g", "-fPIC", "-shared", "-I" + VERIF + "/mc", src, "-o", tmp, "-ldl",
                            "-Wl,-soname," + os.path.basename(so)])
                    os.rename(tmp, so)
                return so
            rt = ex.submit(mk_rt)
        hobj = {h: ex.submit(compile_obj, flags(plan.HARNESS[h]), "%s/harness/%s.cpp" % (VERIF, h), vh) for h in harnesses}
        lobj = {k: [ex.submit(compile_obj, flags(k), s, rh) for s in repo_sources()] for k in kinds}
        out = {}
        for h in harnesses:
            k = plan.HARNESS[h]
            objs = [hobj[h].result()] + [f.result() for f in lobj[k]]
            exe = os.path.join(BUILD, "bin", "%s-%s" % (h, hashlib.sha256("".join(objs).encode()).hexdigest()[:16] +
                               (os.path.basename(rt.result())[8:14] if k == "race" else "")))
            if not os.path.exists(exe):
                tmp = "%s.%d.tmp" % (exe, os.getpid())
                if k == "race":
                    so = rt.result()
                    run_cc([flags(k)[0], "-rdynamic"] + objs + [so, "-Wl,-rpath," + os.path.dirname(so), "-Wl,-z,now", "-lpthread", "-o", tmp])
                else:
                    run_cc(flags(k) + objs + ["-lpthread", "-o", tmp])
                os.rename(tmp, exe)
            out[h] = exe
    return out

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1",
           LC_ALL="C")

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) config=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t = 1 if tier == "thorough" else 0
    prop = plan.PROPS[pid]
    t0 = time.time()
    try:
        exes = build(prop["harness"])
    except BuildError as e:
        print("check: build failed\n%s" % e); return 2
    t_build = time.time() - t0
    # a run must end within 900 s whatever the machine: configurations share what is left of the budget
    budget = float(os.environ.get("VERIF_BUDGET", prop.get("budget", (300, 780))[t]))
    deadline = t0 + t_build + budget
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmpdir = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(tmpdir, ignore_errors=True); os.makedirs(tmpdir)
    jobs = []
    for h in prop["harness"]:
        r = subprocess.run([exes[h], "--list"], stdout=subprocess.PIPE, text=True, env=ENV)
        for l in r.stdout.splitlines():
            name, ct, props = l.split("\t")[:3]
            if pid in props.split() and int(ct) <= t and (only is None or re.search(only, name)): jobs.append((h, name))
    if not jobs: print("check: no configuration for %s" % pid); return 2
    results = []
    stop = []
    known = known_findings(pid)
    def run(job):
        h, name = job
        left = deadline - time.time()
        if stop: return None
        limit = max(5.0, min(left, prop.get("limit", (90, 600))[t]))
        out = os.path.join(tmpdir, name + ".json"); tr = os.path.join(tmpdir, name + ".trace")
        base = [exes[h], "--run", name, "--prop", pid, "--tier", str(t)]
        try:
            r = subprocess.run(base + ["--limit", "%.1f" % limit, "--out", out, "--trace", tr], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, timeout=limit + 120)
            rc, log = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, log = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        if rc == 1 and not known: stop.append(name)        # one counterexample is enough: skip what has not started
        d = None
        if os.path.exists(out):
            try: d = json.load(open(out))
            except Exception: d = None
        return dict(job=job, rc=rc, log=log, data=d, trace=tr, base=base)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(run, jobs):
            if r is not None: results.append(r)
    # ---- judge
    viol, errors = [], []
    for r in results:
        name = r["job"][1]
        if r["rc"] == 0 and r["data"] is not None: continue
        if r["rc"] == 1 and r["data"] is not None and r["data"].get("violation"):
            msg = r["data"]["message"]
            try:
                c = subprocess.run(r["base"] + ["--replay", r["trace"], "--quiet"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, errors="replace", env=ENV, timeout=300)
                ok = c.returncode == 1
                r["replay_out"] = c.stdout
            except subprocess.TimeoutExpired:
                ok = False
            if ok: viol.append((r, msg))
            else: errors.append("%s: violation not confirmed by its replay: %s" % (name, msg))
        else:
            errors.append("%s: ended with %s\n%s" % (name, r["rc"], r["log"][-3000:]))
    fresh = 0
    for r, msg in viol:
        name = r["job"][1]
        k = next((x for x in known if re.fullmatch(x[0], name) and re.search(x[1], msg)), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2])); continue
        fresh += 1
        path = os.path.join(VERIF, "replays", "%s-%s.trace" % (pid, name))
        with open(path, "w") as f:
            f.write("# property %s, configuration %s of harness %s\n# %s\n" % (pid, name, r["job"][0], msg.replace("\n", "\n# ")))
            f.write("# replay: python3 check.py-built harness: <exe> --run %s --prop %s --tier %d --replay <this file>\n" % (name, pid, t))
            f.write(open(r["trace"]).read())
        print("  %s: %s" % (name, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for e in errors: print("check error: " + e)
    # ---- evidence
    data = [r["data"] for r in results if r["data"]]
    def tot(k): return int(sum(d.get(k, 0) for d in data))
    samples = []
    for d in data:
        for s in d.get("samples", [])[:1]:
            if len(samples) < 8: samples.append("%s: %s" % (d["config"], s))
    cov = dict(
        states=tot("states"), transitions=tot("transitions"),
        traces_validated_against_impl=tot("executions") - tot("pruned"),
        executions_of_the_real_code=tot("executions"),
        samples=samples,
        configurations=len(data),
        exhaustive_within_bounds=sum(1 for d in data if d.get("complete")),
        exhaustive=all(d.get("complete") for d in data) and len(data) == len(jobs),
        per_configuration=[{k: d[k] for k in d if k not in ("samples", "message", "outcome_samples", "violation")} for d in data],
        outcomes={d["config"]: d.get("outcome_samples", []) for d in data if d.get("outcome_samples")},
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=prop["level"], coverage=cov,
              assumptions=prop.get("assume", plan.A_MC), wall_s=round(time.time() - t0, 2), violations=fresh)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(tmpdir, ignore_errors=True)
    print("%s %s: %d configurations (%d complete within bounds), %d executions, %d states, %d transitions, build %.0f s, total %.0f s" % (
        pid, tier, len(data), cov["exhaustive_within_bounds"], cov["executions_of_the_real_code"], cov["states"], cov["transitions"], t_build, time.time() - t0))
    if fresh: return 1
    if errors: return 2
    return 0

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build([h for h in plan.HARNESS if len(sys.argv) < 3 or h in sys.argv[2:]])
        sys.exit(0)
    sys.exit(main())
