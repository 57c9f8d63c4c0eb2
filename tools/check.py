#!/usr/bin/env python3
"""Decides one property: compiles its harnesses against /repo, explores them with the symbolic executor (z3),
confirms counterexamples and validates sampled paths on the natively compiled code, and writes the evidence.

  check.py C01 [--tier quick|thorough] [--job SUBSTRING] [--keep]
  check.py --replay FILE        (re-runs a stored counterexample against the current /repo)
Exit: 0 held on everything explored, 1 violated (VIOLATION line), 3 the check itself failed."""
import argparse, concurrent.futures as cf, fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
SX = os.path.join(V, "build", "sx")
sys.path.insert(0, os.path.join(V, "tools"))
CF = ["-std=c++17", "-O1", "-g", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize",
      "-fno-unroll-loops", "-fno-strict-aliasing", "-fsized-deallocation"]
INC = ["-I" + REPO + "/gmlc/containers", "-I" + REPO, "-I" + V + "/harness"]
NPROC = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    with open(os.path.join(V, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["make", "-C", os.path.join(V, "engine"), "-j%d" % NPROC])


class Built:
    """Executor bitcode and native replay programs of one harness file."""

    def __init__(self, tmp, file, defs, threaded):
        self.tmp, self.file, self.defs, self.threaded = tmp, file, defs, threaded
        self.base = os.path.join(tmp, re.sub(r"\W", "_", file + "".join(defs) + ("_t" if threaded else "")))
        self.lock = threading.Lock()
        self.nat = {}

    def bitcode(self):
        src = os.path.join(V, "harness", self.file)
        sh(["clang++-18", *CF, "-Xclang", "-disable-llvm-passes", *INC, *self.defs, "-emit-llvm", "-c", src, "-o", self.base + "_u.bc"])
        sh([SX, "--prepare", self.base + "_u.bc", "--out", self.base + "_h.bc"])
        sh(["llvm-link-18", self.base + "_h.bc", os.path.join(self.tmp, "models_thr.bc"), os.path.join(self.tmp, "models.bc"), "-o", self.base + ".bc"])
        return self.base + ".bc"

    def native(self, race=False, asan=True):
        with self.lock:
            k = (race, asan)
            if k in self.nat:
                return self.nat[k]
            out = self.base + "_n%d%d" % k
            rt = os.path.join(self.tmp, "rt.o")
            san = ["-fsanitize=address"] if asan else []
            link = ["-rdynamic", "-ldl", "-lpthread"]
            if self.threaded:
                bc, ins = out + "_l.bc", out + "_i.bc"
                sh(["llvm-link-18", self.base + "_h.bc", os.path.join(self.tmp, "models_thr.bc"), "-o", bc])
                sh([SX, "--instrument", bc, "--out", ins] + (["--race"] if race else []) + (["--asan"] if asan else []))
                sh(["clang++-18", "-O1", "-g", *san, ins, rt, "-o", out, *link])
            else:
                src = os.path.join(V, "harness", self.file)
                sh(["g++", "-std=c++17", "-O0", "-g", "-DNDEBUG", "-w", *san, *INC, *self.defs, src, rt, "-o", out, *link])
            self.nat[k] = out
            return out


def trace_text(tr, params, fill):
    o = ["P %s %d" % (k, v) for k, v in params.items()]
    for i in tr["inputs"]:
        if "len" in i:
            o.append("D %d %d %d " % (i["t"], i["n"], i["len"]) + " ".join("%s %s" % (k, v) for k, v in i["bytes"].items()))
        else:
            o.append("I %d %d %s" % (i["t"], i["n"], i["v"]))
    o.append("S " + " ".join(str(x) for x in tr["sched"]))
    for k, v in tr["wake"].items():
        o.append("W %s %s" % (k, v))
    o.append("F %d" % fill)
    return "\n".join(o) + "\n"


def run_native(prog, entry, tr, params, fill=0xA5, timeout=30, valgrind=False):
    """-> (outcome, detail, observed)"""
    fd, fn = tempfile.mkstemp(dir=os.path.dirname(prog))
    os.write(fd, trace_text(tr, params, -1 if valgrind else fill).encode())
    os.close(fd)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1")
    cmd = [prog, entry, fn]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=78", "--undef-value-errors=yes"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "HANG", "no end within %d s" % timeout, []
    finally:
        os.unlink(fn)
    out = r.stdout.decode(errors="replace")
    err = r.stderr.decode(errors="replace")
    obs = [l.split()[1:3] for l in out.splitlines() if l.startswith("O t")]
    m = re.search(r"^RESULT (\S+) ?(.*)$", out, re.M)
    if r.returncode == 77 or "AddressSanitizer" in err:
        s = re.search(r"ERROR: AddressSanitizer:? (.*)", err)
        fr = re.findall(r"#\d+ 0x\w+ in (.*)", err)[:6]
        return "MEMORY", "AddressSanitizer: %s | %s" % (s.group(1) if s else "", " <- ".join(fr)), obs
    if r.returncode == 78:
        return "MEMORY", "valgrind: " + " ".join(err.split("\n")[0:4]), obs
    if r.returncode < 0:
        return "CRASH", "signal %d" % -r.returncode, obs
    if m:
        return m.group(1), m.group(2), obs
    return "CRASH", "exit %d %s" % (r.returncode, err[-300:]), obs


BAD = {"ASSERT", "DEADLOCK", "MEMORY", "MUTEX", "EXCEPTION", "RACE", "HANG", "CRASH"}


def confirm(built, job, v):
    tries = []
    race = job.race
    prog = built.native(race=race, asan=True)
    for fill in (0xA5, 0x00, 0xFF):
        res = run_native(prog, job.entry, v["trace"], job.params, fill, timeout=20)
        tries.append(res[:2])
        # without threads a run that does not end is a failure of its own (the compiler may drop an endless loop)
        if res[0] in BAD and not (res[0] == "HANG" and job.threaded and v["kind"] not in ("hang", "deadlock")):
            return True, tries
    if v["kind"] == "memory":
        prog = built.native(race=False, asan=False)
        res = run_native(prog, job.entry, v["trace"], job.params, timeout=120, valgrind=True)
        tries.append(res[:2])
        if res[0] in BAD:
            return True, tries
    return False, tries


def run_engine(built, job, shard, tmp, timelimit, procs, stopflag):
    if stopflag.is_set():
        return None
    out = os.path.join(tmp, "out_%s_%d_%d.json" % (job.entry, id(job), shard))
    cmd = [SX, built.base + ".bc", "--entry", job.entry, "--time", str(timelimit), "--steps", str(job.steps),
           "--seed", os.environ.get("VERIF_SEED", "1"), "--samples", str(job.samples), "--out", out]
    for k, v in job.params.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    if job.shards > 1:
        cmd += ["--shard", "%d/%d" % (shard, job.shards)]
    for k, v in job.opts.items():
        cmd += ["--" + k, str(v)]
    if job.race:
        cmd += ["--race"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    procs.add(p)
    try:
        o, e = p.communicate(timeout=timelimit + 90)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"violations": [], "inconclusive": ["time limit (killed)"], "reached": {}, "functions": [], "lines": [], "stats": {}, "samples": []}
    finally:
        procs.discard(p)
    if stopflag.is_set():
        return None
    if p.returncode not in (0, 1, 2):
        raise CheckError("executor failed (%s) on %s: %s" % (p.returncode, job.entry, e[-2000:]))
    return json.load(open(out))


def known_findings():
    fn = os.path.join(V, "known-findings.json")
    return json.load(open(fn)) if os.path.exists(fn) else {"findings": [], "fixed": []}


def prepare(tmp, jobs, native=True):
    build_engine()
    builts = {}
    for j in jobs:
        k = (j.file, tuple(j.defs), j.threaded)
        if k not in builts:
            builts[k] = Built(tmp, j.file, list(j.defs), j.threaded)
    MF = ["-fno-builtin", "-fno-access-control", "-I" + V + "/harness"]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(sh, ["clang++-18", *CF, *MF, "-emit-llvm", "-c", V + "/harness/" + m + ".cpp", "-o", tmp + "/" + m + ".bc"])
              for m in ("models", "models_thr")]
        fs.append(ex.submit(sh, ["g++", "-std=c++17", "-O1", "-g", "-I" + V + "/harness", "-c", V + "/harness/replay_rt.cpp", "-o", tmp + "/rt.o"]))
        [f.result() for f in fs]
        [f.result() for f in [ex.submit(b.bitcode) for b in builts.values()]]
    return builts


def do_check(prop, tier, only, keep):
    import jobs as J
    t0 = time.time()
    spec = J.PROPS[prop]
    jobs = list(spec["quick"]) + (list(spec.get("thorough", [])) if tier == "thorough" else [])
    if only:
        jobs = [j for j in jobs if only in j.entry]
    budget = float(os.environ.get("SX_BUDGET", 600 if tier == "quick" else 21600))
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(V, "build"))
    procs, stopflag = set(), threading.Event()
    known = [k for k in known_findings()["findings"] if k["property"] == prop]
    try:
        builts = prepare(tmp, jobs)
        B = lambda j: builts[(j.file, tuple(j.defs), j.threaded)]
        tasks = [(j, s) for j in jobs for s in range(j.shards)]
        tasks.sort(key=lambda t: -t[0].weight)
        results, viol, err = {}, [], []
        for j in jobs:
            results[id(j)] = []

        def work(t):
            j, s = t
            left = budget - (time.time() - t0)
            if left < 5:
                return t, {"violations": [], "inconclusive": ["time limit"], "reached": {}, "functions": [], "lines": [], "stats": {}, "samples": []}
            return t, run_engine(B(j), j, s, tmp, min(left, j.time), procs, stopflag)

        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(work, t) for t in tasks]
            for f in cf.as_completed(futs):
                try:
                    (j, s), r = f.result()
                except CheckError as e:
                    err.append(str(e))
                    continue
                if r is None:
                    continue
                results[id(j)].append(r)
                if r["violations"] and not viol:
                    viol += [(j, v) for v in r["violations"]]
                    stopflag.set()
                    for p in list(procs):
                        p.kill()
        rc = 0
        confirmed = []
        for j, v in viol:
            ok, tries = confirm(B(j), j, v)
            if ok:
                confirmed.append((j, v, tries))
            else:
                err.append("unconfirmed counterexample of %s: %s %s at %s; native: %s" % (j.entry, v["kind"], v["msg"], v["where"], tries))
                d = os.path.join(V, "evidence", "unconfirmed")
                os.makedirs(d, exist_ok=True)
                json.dump({"property": prop, "file": j.file, "entry": j.entry, "params": j.params, "violation": v}, open(os.path.join(d, prop + ".json"), "w"))
        nviol = 0
        for n, (j, v, tries) in enumerate(confirmed):
            d = os.path.join(V, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            fn = os.path.join(d, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "file": j.file, "defs": list(j.defs), "entry": j.entry, "params": j.params, "threaded": j.threaded,
                       "race": j.race, "violation": v, "native": tries}, open(fn, "w"), indent=1)
            k = [k for k in known if k["entry"] == j.entry and k["msg"] == v["msg"]]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
                continue
            nviol += 1
            rc = 1
            print("violated: %s: %s\n  where: %s\n  native build: %s" % (v["kind"], v["msg"], v["where"], tries[-1]))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
        # ---- completeness, vacuity, validation of sampled paths
        incomplete, validated, mism = [], 0, []
        details, samples = [], []
        tot, funcs, lines = {}, set(), set()
        todo = []
        for j in jobs:
            rs = results[id(j)]
            reached, st, inc = {}, {}, []
            for r in rs:
                for k, c in r["reached"].items():
                    reached[k] = reached.get(k, 0) + c
                for k, c in r["stats"].items():
                    st[k] = max(st.get(k, 0), c) if k in ("z3_max", "wall", "max_level") else st.get(k, 0) + c
                funcs.update(r["functions"])
                lines.update(r["lines"])
                inc += r["inconclusive"]
                for s in r["samples"]:
                    todo.append((j, s))
            for k, c in st.items():
                tot[k] = max(tot.get(k, 0), c) if k in ("z3_max", "wall", "max_level") else tot.get(k, 0) + c
            hard = [i for i in inc if not i.startswith("time limit")]
            if hard and not viol:
                err.append("%s: not decided: %s" % (j.entry, "; ".join(sorted(set(hard))[:5])))
            if inc and not hard:
                incomplete.append(j.entry)
            missing = [x for x in j.reach if x not in reached]
            if missing and not viol and not inc:
                err.append("%s: vacuous: never reached %s" % (j.entry, missing))
            details.append({"harness": j.file + ":" + j.entry, "bounds": j.note, "params": j.params, "options": j.opts, "shards": j.shards,
                            "complete": not inc and len(rs) == j.shards, "reached": reached, "stats": {k: v for k, v in st.items() if v}})
        if os.environ.get("SX_LINES"):
            with open(os.path.join(os.environ["SX_LINES"], prop), "w") as f:
                f.write("\n".join(sorted(lines)))
        if not viol and not err:
            todo = todo[:J.MAXVALIDATE[tier]] if len(todo) > J.MAXVALIDATE[tier] else todo
            if todo:
                with cf.ThreadPoolExecutor(NPROC) as ex:
                    list(ex.map(lambda k: k[0].native(race=k[1], asan=True), {(B(j), j.race) for j, _ in todo}))

                    def val(x):
                        j, s = x
                        return j, s, run_native(B(j).native(race=j.race, asan=True), j.entry, s, j.params)
                    for j, s, (res, det, obs) in ex.map(val, todo):
                        want = [[t, str(v)] for t, v in s["observed"]]
                        if res == "PASS" and sorted(want) == sorted([list(o) for o in obs]) and per_thread(want) == per_thread(obs):
                            validated += 1
                            if len(samples) < 5:
                                samples.append({"harness": j.entry, "inputs": brief(s), "schedule": s["sched"], "observed": want[:40], "native": "same"})
                        else:
                            mism.append("%s: executor says pass with %s, native %s %s with %s; trace %s" % (j.entry, want[:20], res, det, obs[:20], json.dumps(s)[:1500]))
            if mism:
                err.append("native run differs from the executor: " + mism[0])
        wall = time.time() - t0
        cov = {"states": tot.get("states", 0), "transitions": tot.get("forks", 0) + tot.get("sched_transitions", 0) + tot.get("paths", 0),
               "traces_validated_against_impl": validated, "samples": samples, "paths": tot.get("paths", 0),
               "instructions_executed_symbolically": tot.get("instructions", 0), "assertions_checked": tot.get("asserts", 0),
               "memory_accesses_checked": tot.get("memory_checks", 0),
               "solver": {"tool": "z3", "queries": tot.get("queries", 0), "answered_by_current_model": tot.get("by_model", 0),
                          "answered_by_cache": tot.get("by_cache", 0), "z3_calls": tot.get("z3_calls", 0), "sat": tot.get("z3_sat", 0),
                          "unsat": tot.get("z3_unsat", 0), "unknown": tot.get("z3_unknown", 0), "seconds": round(tot.get("z3_time", 0), 3),
                          "slowest_query_s": round(tot.get("z3_max", 0), 3)},
               "functions_encoded": sorted(funcs), "source_lines_encoded": len(lines), "harnesses": details,
               "exhaustive": not incomplete and not err and not viol, "incomplete": incomplete}
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
              "assumptions": J.ASSUME + spec.get("assume", []), "wall_s": round(wall, 2), "violations": nviol}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        if rc == 0 and err:
            for e in err[:5]:
                print("CHECK-ERROR: " + e)
            rc = 3
        for e in incomplete:
            print("INCOMPLETE: %s stopped at its time limit; the result covers what was explored" % e)
        print("%s %s: %s  harnesses=%d paths=%d states=%d queries=%d z3=%.1fs validated=%d wall=%.1fs" % (
            prop, tier, {0: "held", 1: "VIOLATED"}.get(rc, "ERROR"), len(jobs), tot.get("paths", 0), tot.get("states", 0), tot.get("queries", 0),
            tot.get("z3_time", 0), validated, wall))
        return rc
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


def per_thread(obs):
    d = {}
    for t, v in obs:
        d.setdefault(t, []).append(str(v))
    return d


def brief(s):
    o = []
    for i in s["inputs"]:
        n = i["name"].split(":", 1)[-1]
        o.append("t%d %s=%s" % (i["t"], n, i["v"] if "v" in i else "<%d bytes>" % i["len"]))
    return o[:60]


def replay(fn):
    import jobs as J
    d = json.load(open(fn))
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(V, "build"))
    try:
        j = J.Job(d["file"], d["entry"], params=d["params"], defs=d.get("defs", []), threaded=d.get("threaded", False), race=d.get("race", False))
        b = list(prepare(tmp, [j]).values())[0]
        ok, tries = confirm(b, j, d["violation"])
        print("reproduced" if ok else "not reproduced", tries)
        return 1 if ok else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = replay(a.replay) if a.replay else do_check(a.prop, a.tier, a.job, a.keep)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        rc = 3
    sys.exit(rc)
