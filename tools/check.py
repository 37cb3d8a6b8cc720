#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

  check.py PROP [--tier quick|thorough] [--unit NAME] [--entry NAME] [--keep]

For every unit of the property: build the schema compiler from /repo's current
sources when the unit needs generated code, generate it, compile the harness
with the code under test to LLVM IR, explore every path with the executor in
/verif/engine (z3 decides every branch and every assertion over all values
within the bounds), replay each counterexample natively (g++, ASan+UBSan)
before reporting it, and replay a sample of the explored paths to compare the
executor's observations with the real code's.

exit 0: held on everything within the bounds;  1: violation (confirmed by
replay);  2: no answer (bounds not exhausted, unconfirmed counterexample,
build failure).
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPB_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
CORES = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, os.path.join(VERIF, "tools"))


class Broken(Exception):
    pass


class Tokens:
    """CPU budget: a job takes n of CORES."""

    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()

    def take(self, k):
        with self.cv:
            while self.n < k:
                self.cv.wait()
            self.n -= k

    def give(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()


TOK = Tokens(CORES)
VERBOSE = False


def log(*a):
    if VERBOSE:
        print("[%7.2f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def run(cmd, what, tok=1, cwd=None, timeout=800, ok=(0,), env=None):
    TOK.take(tok)
    try:
        t = time.time()
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        log("%-40s %6.2f s" % (what[:40], time.time() - t))
    except subprocess.TimeoutExpired:
        raise Broken("%s: timed out" % what)
    finally:
        TOK.give(tok)
    if ok is not None and p.returncode not in ok:
        raise Broken("%s failed (%d):\n%s" % (what, p.returncode, (p.stderr or p.stdout).decode(errors="replace")[:6000]))
    return p


def engine():
    """Path of the executor, built from /verif/engine (cached by content)."""
    src = sorted(glob.glob(VERIF + "/engine/*.cpp") + glob.glob(VERIF + "/engine/*.h") + [VERIF + "/engine/Makefile"])
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    d = os.path.join(VERIF, "build", "engine-" + h.hexdigest()[:16])
    exe = d + "/symx"
    os.makedirs(d, exist_ok=True)
    with open(d + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            run(["make", "-s", "-C", VERIF + "/engine", "-j8", "B=" + d + "/obj"], "build engine", tok=1)
            os.replace(d + "/obj/symx", exe)
            shutil.rmtree(d + "/obj", ignore_errors=True)
            for o in glob.glob(VERIF + "/build/engine-*"):
                if o != d:
                    shutil.rmtree(o, ignore_errors=True)
    return exe


def build_protoc(tmp, pool):
    out = tmp + "/protoc"
    os.makedirs(out, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/spb-proto-compiler/**/*.cpp", recursive=True))
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src/spb-proto-compiler", "-I" + REPO + "/src"]
    objs, futs = [], []
    for i, s in enumerate(srcs):
        o = "%s/o%d.o" % (out, i)
        objs.append(o)
        futs.append(pool.submit(run, [CLANG, "-std=c++20", "-O0", "-w", *inc, "-c", s, "-o", o], "protoc " + os.path.basename(s)))
    for f in futs:
        f.result()
    exe = out + "/spb-protoc"
    run([CLANG, *objs, "-o", exe], "link protoc")
    return exe


IRFLAGS = ["-std=c++20", "-O1", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-finite-loops", "-fno-pic", "-fno-pie",
           "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-ffile-prefix-map=" + VERIF + "/="]
UBFLAGS = ["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=vptr,function"]
# NDEBUG stays undefined: the assert()s of the library are checked as well
NATFLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-rdynamic", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=address,undefined",
            "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-DSYMX_NATIVE"]


def read_file(p):
    try:
        return open(p).read()
    except OSError:
        return ""


class Rejected(Exception):
    """the schema compiler rejects a valid schema of the harness, or what it generates is not valid C++"""

    def __init__(self, what, text, replay):
        super().__init__(what)
        self.what, self.text, self.replay = what, text, replay


class Unit:
    """A harness translation unit with the entries to decide."""

    def __init__(self, name, src, entries, protos=(), defines=(), ub=False, repo_srcs=(), shim=False, count_alloc=False,
                 opt="-O1", extra=(), genflags=(), use_irpre=True, judge=False):
        self.name, self.src, self.entries = name, src, entries
        self.protos, self.defines, self.ub = list(protos), list(defines), ub
        self.repo_srcs, self.shim, self.count_alloc, self.opt = list(repo_srcs), shim, count_alloc, opt
        self.extra, self.use_irpre = list(extra), use_irpre
        self.judge = judge  # schemas that have to be accepted and to give valid C++: anything else is a violation


class Entry:
    def __init__(self, name, quick=None, thorough=None, reach=(), jobs=2, time=600, opts=(), samples=4, tiers=("quick", "thorough"),
                 bounds="", allow=(), label=""):
        self.name, self.quick = name, dict(quick or {})
        self.thorough = dict(thorough) if thorough is not None else dict(self.quick)
        self.reach, self.jobs, self.time, self.opts, self.samples = list(reach), jobs, time, list(opts), samples
        self.tiers, self.bounds, self.allow, self.label = tiers, bounds, list(allow), label


class Runner:
    def __init__(self, prop, tier, tmp):
        self.prop, self.tier, self.tmp = prop, tier, tmp
        self.pool = ThreadPoolExecutor(64)
        self.engine = self.pool.submit(engine)
        self.rt = self.pool.submit(self.compile_rt)
        self.protoc = None
        self.lock = threading.Lock()
        self.natives = {}

    def compile_rt(self):
        out = self.tmp + "/rt.bc"
        run([CLANG, *IRFLAGS, "-I" + VERIF + "/harness", VERIF + "/engine/rt/rt.cpp", "-o", out], "rt.bc")
        return out

    def get_protoc(self):
        with self.lock:
            if self.protoc is None:
                self.protoc = self.pool.submit(build_protoc, self.tmp, self.pool)
        return self.protoc.result()

    def generate(self, u):
        gen = "%s/gen-%s" % (self.tmp, u.name)
        os.makedirs(gen, exist_ok=True)
        if u.protos:
            pc = self.get_protoc()
            for pr in u.protos:
                try:
                    run([pc, "--proto_path=" + VERIF + "/harness/proto", "--cpp_out=" + gen, VERIF + "/harness/proto/" + pr], "protoc " + pr, timeout=60)
                except Broken as x:
                    if u.judge:
                        raise Rejected("a valid schema is rejected", str(x), VERIF + "/harness/proto/" + pr)
                    raise
        return gen

    def gen_dep(self, u):
        with self.lock:
            if not hasattr(u, "_gen"):
                u._gen = self.pool.submit(self.generate, u)
        return u._gen.result()

    def sources(self, u, gen):
        s = [VERIF + "/harness/src/" + u.src]
        s += sorted(glob.glob(gen + "/**/*.cc", recursive=True))
        s += [REPO + "/" + x for x in u.repo_srcs]
        return s

    def incs(self, u, gen):
        i = ["-I" + VERIF + "/harness", "-I" + gen, "-I" + REPO + "/include"]
        if u.repo_srcs:
            i += ["-I" + REPO + "/src/spb-proto-compiler", "-I" + REPO + "/src"]
        return i + ["-D" + d for d in u.defines]

    def compile_generated(self, u, gen, s):
        try:
            run(["g++", "-std=c++20", "-O0", "-w", "-fsyntax-only", "-I" + gen, "-I" + VERIF + "/harness", "-I" + REPO + "/include", s], "judge " + os.path.basename(s))
        except Broken as x:
            raise Rejected("the generated code does not compile", str(x), VERIF + "/harness/proto/" + os.path.basename(s).replace(".pb.cc", ".proto"))

    def compile_ir(self, u):
        gen = self.gen_dep(u)
        if u.judge:
            for f in [self.pool.submit(self.compile_generated, u, gen, s) for s in sorted(glob.glob(gen + "/**/*.cc", recursive=True))]:
                f.result()
        futs, outs = [], []
        for k, s in enumerate(self.sources(u, gen)):
            o = "%s/%s-%d.bc" % (self.tmp, u.name, k)
            outs.append(o)
            pre = ["-include", VERIF + "/harness/irpre.h"] if u.use_irpre else []
            shim = ["-isystem", VERIF + "/harness/shim"] if u.shim else []
            fl = [f if f != "-O1" else u.opt for f in IRFLAGS]
            futs.append(self.pool.submit(run, [CLANG, *fl, *(UBFLAGS if u.ub else []), *shim, *self.incs(u, gen), *pre, *u.extra, s, "-o", o],
                                         "ir %s:%s" % (u.name, os.path.basename(s))))
        for f in futs:
            f.result()
        return outs

    def compile_native(self, u):
        gen = self.gen_dep(u)
        futs, outs = [], []
        defs = ["-DSYMX_COUNT_ALLOC"] if u.count_alloc else []
        for k, s in enumerate(self.sources(u, gen) + [VERIF + "/harness/native.cpp"]):
            o = "%s/%s-n%d.o" % (self.tmp, u.name, k)
            outs.append(o)
            fl = [f for f in NATFLAGS if not (u.count_alloc and f.startswith("-fsanitize=address"))] + (["-fsanitize=undefined"] if u.count_alloc else [])
            shim = ["-isystem", VERIF + "/harness/shim"] if u.shim and "native" in u.extra else []
            futs.append(self.pool.submit(run, ["g++", *fl, *defs, *shim, *self.incs(u, gen), *[x for x in u.extra if x != "native"], "-c", s, "-o", o],
                                         "native %s:%s" % (u.name, os.path.basename(s))))
        for f in futs:
            f.result()
        exe = "%s/%s.exe" % (self.tmp, u.name)
        run(["g++", *[f for f in NATFLAGS if not (u.count_alloc and f.startswith("-fsanitize=address"))],
             *(["-fsanitize=undefined"] if u.count_alloc else []), *outs, "-o", exe, "-ldl"], "link " + u.name)
        return exe

    def native(self, u):
        with self.lock:
            if u.name not in self.natives:
                self.natives[u.name] = self.pool.submit(self.compile_native, u)
        return self.natives[u.name].result()

    def plain_native(self, u):
        """build without sanitizers, for valgrind"""
        gen = self.gen_dep(u)
        exe = "%s/%s-vg.exe" % (self.tmp, u.name)
        with self.lock:
            if not os.path.exists(exe):
                run(["g++", "-std=c++20", "-O1", "-g1", "-w", "-rdynamic", "-DSYMX_NATIVE", *self.incs(u, gen), *[x for x in u.extra if x != "native"],
                     *self.sources(u, gen), VERIF + "/harness/native.cpp", "-o", exe, "-ldl"], "valgrind build")
        return exe

    def replay_file(self, inputs, path):
        with open(path, "w") as f:
            for n, h in inputs:
                f.write("%s\t%s\n" % (n, h))

    def replay(self, u, entry, path, params, timeout=90):
        exe = self.native(u)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=512:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=0")
        TOK.take(1)
        try:
            p = subprocess.run([exe, "test_" + entry, path, *["%s=%d" % kv for kv in params.items()]], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=env, timeout=timeout)
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return 99, "", "timeout"
        finally:
            TOK.give(1)

    def decide(self, u, e):
        """explore one entry; returns merged result"""
        params = e.quick if self.tier == "quick" else e.thorough
        bcs = u._ir.result() + [self.rt.result()]
        exe = self.engine.result()
        jobs = min(CORES, e.jobs)
        out = "%s/out-%s-%s%s" % (self.tmp, u.name, e.name, e.label)
        os.makedirs(out, exist_ok=True)
        cmd = [exe]
        for b in bcs:
            cmd += ["--bc", b]
        tl = e.time if self.tier == "quick" else e.time * 8
        cmd += ["--entry", "test_" + e.name, "--out", out, "--jobs", str(jobs), "--time", str(tl), "--samples", str(e.samples)]
        for k, v in params.items():
            cmd += ["--param", "%s=%d" % (k, v)]
        cmd += e.opts
        t = time.time()
        p = run(cmd, "symx %s.%s%s" % (u.name, e.name, e.label), tok=jobs, timeout=tl + 120)
        m = {"wall": time.time() - t, "violations": [], "samples": [], "reached": set(), "incomplete": {}, "functions": set()}
        for f in sorted(glob.glob(out + "/r*.json")):
            r = json.load(open(f))
            for k in ("violations", "samples"):
                m[k] += r[k]
            m["reached"] |= set(r["reached"])
            m["functions"] |= set(r["functions"])
            for k, v in r["incomplete"].items():
                m["incomplete"][k] = m["incomplete"].get(k, 0) + v
            for k in ("paths", "killed", "instrs", "forks", "asserts", "queries", "z3_queries", "z3_assert", "cache_hits", "fd", "unknown", "z3_time"):
                m[k] = m.get(k, 0) + r[k]
        if not m.get("paths") and not m["violations"] and not m["incomplete"]:
            m["incomplete"]["no path explored"] = 1
        log("%s.%s%s: paths=%d z3=%d (%.1f s) instrs=%d viol=%d %s" % (u.name, e.name, e.label, m.get("paths", 0), m.get("z3_queries", 0), m.get("z3_time", 0),
            m.get("instrs", 0), len(m["violations"]), m["incomplete"] or ""))
        return m

    def job(self, u, e):
        res = {"unit": u.name, "entry": e.name + e.label, "problems": [], "violations": [], "validated": 0, "unconfirmed": []}
        params = e.quick if self.tier == "quick" else e.thorough
        try:
            m = self.decide(u, e)
        except Broken as x:
            res["problems"].append(str(x))
            return res
        except Rejected as x:
            rdir = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(rdir, exist_ok=True)
            path = "%s/%s.in" % (rdir, u.name)
            open(path, "w").write(open(x.replay).read())
            open(path + ".txt", "w").write("%s\n%s\n" % (x.what, x.text))
            res["violations"].append(dict(kind="schema", msg=x.what, loc=x.replay, stack=[], replay=path, native_rc=1, native_err=x.text[-1500:], inputs=[]))
            return res
        res["m"] = m
        seen = {}
        rdir = os.path.join(VERIF, "replays", self.prop)
        for v in m["violations"]:
            key = (v["kind"], v["msg"], v["loc"])
            if seen.get(key, 0) >= 2:
                continue
            seen[key] = seen.get(key, 0) + 1
            os.makedirs(rdir, exist_ok=True)
            path = "%s/%s.%s%s-%d.in" % (rdir, u.name, e.name, e.label, sum(seen.values()))
            self.replay_file(v["inputs"], path)
            if v["soft"]:
                log("soft", v["msg"], v["loc"], v["stack"][:3])
                exe = self.plain_native(u)
                p = subprocess.run(["valgrind", "-q", "--error-exitcode=77", exe, "test_" + e.name, path, *["%s=%d" % kv for kv in params.items()]],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
                rc, err = p.returncode, p.stderr.decode(errors="replace")
                confirmed = rc == 77
                if not confirmed:
                    continue  # a load of uninitialised padding that nothing depends on
            else:
                rc, _, err = self.replay(u, e.name, path, params)
                confirmed = rc not in (0, 11, 12)
            rec = dict(kind=v["kind"], msg=v["msg"], loc=v["loc"], stack=v["stack"][:12], replay=path, native_rc=rc, native_err=err[-1500:], inputs=v["inputs"])
            with open(path + ".txt", "w") as f:
                f.write("%s\n%s\n%s\n%s\nnative exit %s\n%s\ncommand: replay of entry test_%s, params %s\n" % (v["kind"], v["msg"], v["loc"], "\n".join(v["stack"]), rc, err, e.name, params))
            (res["violations"] if confirmed else res["unconfirmed"]).append(rec)
        if res["unconfirmed"] and not res["violations"]:
            for r in res["unconfirmed"]:
                res["problems"].append("counterexample not confirmed by the real code: %s %s at %s (native exit %s, %s)" % (r["kind"], r["msg"], r["loc"], r["native_rc"], r["replay"]))
        inc = {k: v for k, v in m["incomplete"].items() if k != "stopped after violations" and k not in e.allow}
        if inc:
            res["problems"].append("not exhausted within the bounds: %s" % inc)
        if m["unknown"]:
            res["problems"].append("%d solver queries undecided" % m["unknown"])
        miss = [r for r in e.reach if r not in m["reached"]]
        if miss and not res["violations"] and not inc:
            # a situation the property speaks about never occurs any more: everything was vacuous
            res["problems"].append("never reached: %s" % miss)
        if not res["violations"]:
            for k, s in enumerate(m["samples"][:max(e.samples, 1) * 2]):
                path = "%s/s-%s-%s%s-%d.in" % (self.tmp, u.name, e.name, e.label, k)
                self.replay_file(s["inputs"], path)
                rc, o, err = self.replay(u, e.name, path, params)
                obs = [int(x) for x in re.findall(r"^OBS (\d+)$", o, re.M)]
                if rc != 0 or obs != s["obs"]:
                    keep = "%s/sample-%s.%s%s-%d.in" % (rdir, u.name, e.name, e.label, k)
                    os.makedirs(rdir, exist_ok=True)
                    shutil.copy(path, keep)
                    if rc not in (0, 11, 12):
                        # the real code fails where the executor saw nothing (e.g. misaligned access)
                        res["violations"].append(dict(kind="replay", msg="the real code fails on an explored path: exit %d" % rc, loc="", stack=[], replay=keep, native_rc=rc, native_err=err[-1500:], inputs=s["inputs"]))
                    else:
                        res["problems"].append("replayed path differs from the real code: exit %d, %s vs %s (%s)\n%s" % (rc, s["obs"], obs, keep, err[-800:]))
                    break
                res["validated"] += 1
        return res


def known_findings(prop):
    p = VERIF + "/known_findings.jsonl"
    return [k for k in (json.loads(l) for l in read_file(p).splitlines() if l.strip()) if k.get("property") == prop and k.get("status") == "known"]


def main():
    global VERBOSE, T0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--entry")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--param", action="append", default=[])
    a = ap.parse_args()
    VERBOSE, T0 = a.v, time.time()
    if a.prop == "setup":
        print(engine())
        return 0
    import checks
    spec = checks.get(a.prop, a.tier)
    shutil.rmtree(os.path.join(VERIF, "replays", a.prop), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="symx-%s-" % a.prop)
    try:
        return check(a, spec, tmp)
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def check(a, spec, tmp):
    R = Runner(a.prop, a.tier, tmp)
    units = [u for u in spec["units"] if not a.unit or u.name == a.unit]
    for u in units:
        u._ir = R.pool.submit(R.compile_ir, u)
    futs = []
    for u in units:
        for e in u.entries:
            if a.tier not in e.tiers or (a.entry and a.entry != e.name and a.entry != e.name + e.label):
                continue
            for kv in a.param:
                k, v = kv.split("=")
                e.quick[k] = e.thorough[k] = int(v)
            futs.append((u, e))
    # longest first
    futs.sort(key=lambda t: -t[1].jobs)
    js = [R.pool.submit(R.job, u, e) for u, e in futs]
    for u in units:
        R.pool.submit(R.native, u)
    results = []
    for j, (u, e) in zip(js, futs):
        try:
            results.append(j.result())
        except Broken as x:
            results.append({"unit": u.name, "entry": e.name, "problems": [str(x)], "violations": [], "validated": 0})
    known = known_findings(a.prop)
    rc = 0
    nviol, nknown = 0, 0
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k.get("entry") == r["entry"] and k.get("unit", r["unit"]) == r["unit"] and k.get("match", "") in (v["msg"] + " " + v["loc"])), None)
            if k:
                nknown += 1
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
                continue
            nviol += 1
            rc = 1
            print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
            print("  %s.%s: %s: %s\n  at %s" % (r["unit"], r["entry"], v["kind"], v["msg"], v["loc"]))
            for s in v["stack"][:8]:
                print("    " + s)
            print("  inputs: %s" % v["inputs"])
            print("  native replay exit %s: %s" % (v["native_rc"], v["native_err"].strip()[-400:]))
    problems = [(r["unit"] + "." + r["entry"], p) for r in results for p in r["problems"]]
    for n, p in problems:
        print("NO-ANSWER %s: %s" % (n, p), file=sys.stderr)
    if rc == 0 and problems:
        rc = 2
    write_evidence(a, spec, results, rc, nviol, problems, len(known))
    tot = lambda k: sum(r["m"].get(k, 0) for r in results if "m" in r)
    print("%s %s: %s; %d entries, %d paths, %d queries (%d to z3), %d assertions, %d traces validated, %.1f s" % (
        a.prop, a.tier, {0: "holds within the bounds", 1: "VIOLATED", 2: "no answer"}[rc], len(results), tot("paths"), tot("queries"), tot("z3_queries"),
        tot("asserts"), sum(r["validated"] for r in results), time.time() - T0))
    return rc


def write_evidence(a, spec, results, rc, nviol, problems, nknown):
    ms = [r for r in results if "m" in r]
    tot = lambda k: sum(r["m"].get(k, 0) for r in ms)
    funcs = {}
    for r in ms:
        for f in r["m"]["functions"]:
            file, name, line = (f.split("\t") + ["", ""])[:3]
            if "/include/spb/" in file or "spb-proto-compiler" in file or "/gen-" in file:
                file = re.sub(r"^.*/gen-[^/]*/", "generated:", file).replace(REPO + "/", "")
                funcs.setdefault(file, set()).add(name)
    samples = []
    for r in ms:
        for s in r["m"]["samples"][:2]:
            samples.append({"entry": r["unit"] + "." + r["entry"], "inputs": s["inputs"], "observations": s["obs"][:16]})
    entries = []
    for r in ms:
        m = r["m"]
        entries.append({"entry": r["unit"] + "." + r["entry"], "paths": m["paths"], "assertions_discharged": m["asserts"], "branch_forks": m["forks"],
                        "queries": m["queries"], "z3_queries": m["z3_queries"], "z3_seconds": round(m["z3_time"], 2), "wall_s": round(m["wall"], 2),
                        "reached": sorted(m["reached"]), "incomplete": m["incomplete"], "validated": r["validated"]})
    bounds = {}
    for u in spec["units"]:
        for e in u.entries:
            if a.tier in e.tiers:
                bounds[u.name + "." + e.name + e.label] = {"parameters": e.quick if a.tier == "quick" else e.thorough, "what": e.bounds}
    d = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "wall_s": round(time.time() - T0, 2), "violations": nviol,
        "assumptions": spec.get("assumptions", []),
        "coverage": {
            "states": tot("paths"), "transitions": tot("instrs"),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "samples": samples[:24],
            "explanation": "states: execution paths explored, each standing for every input that follows it; transitions: IR instructions executed symbolically. "
                           "Every branch and assertion was decided by the solver over all values within the bounds. " + spec.get("what", ""),
            "exhaustive": rc == 0,
            "queries": tot("queries"), "z3_queries": tot("z3_queries"), "assertions": tot("asserts"), "solver_seconds": round(tot("z3_time"), 2),
            "bounds": bounds, "outside_bounds": spec.get("outside", ""),
            "functions_encoded": {k: sorted(v) for k, v in sorted(funcs.items())},
            "entries": entries, "problems": ["%s: %s" % p for p in problems][:20], "known_findings": nknown, "result": rc,
        },
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmpf = VERIF + "/evidence/.%s.tmp" % a.prop
    with open(tmpf, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmpf, VERIF + "/evidence/%s.json" % a.prop)


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as x:
        print("NO-ANSWER", x, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
