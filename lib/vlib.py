"""Building, running drivers, running TLC, and reporting."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = os.cpu_count() or 4
T0 = time.time()


class Infra(Exception):
    """Something other than the code under test went wrong."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------------
# building

FLAVORS = {
    # sequential engines: memory errors and uninitialised reads show
    "asan": (["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
              "-ftrivial-auto-var-init=pattern"], ["-fsanitize=address"]),
    # schedule-controlled engines
    "plain": (["-O1", "-g", "-D_GLIBCXX_ASSERTIONS"], []),
    # the same, and memory accesses of the library are steps of the schedule
    "sched": (["-O1", "-g", "-D_GLIBCXX_ASSERTIONS"], []),
}
LIBFLAGS = {"sched": ["-fsanitize=thread", "-ftrivial-auto-var-init=pattern"]}   # (the harness stands in for the run-time library)
COMMON = ["-std=c++17", "-w", "-pthread", "-I" + SRC, "-I" + HARNESS]
LIBS = ["-lboost_thread", "-lboost_system", "-lboost_chrono", "-lpthread", "-ldl"]


def _digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _headers(*dirs):
    out = []
    for d in dirs:
        for root, _, files in os.walk(d):
            out += [os.path.join(root, f) for f in files if f.endswith((".h", ".hpp", ".ipp", ".inc"))]
    return sorted(out)


def build(driver, flavor, sources):
    """Link harness `sources` with every source of /repo/src; cached by content."""
    cflags, lflags = FLAVORS[flavor]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    libsrc = sorted(os.path.join(r, f) for r, _, fs in os.walk(SRC) for f in fs if f.endswith((".cpp", ".cc", ".cxx")))
    hdr = _headers(SRC, HARNESS)
    hkey = _digest(hdr, "h")
    jobs, objs = [], []
    for s in libsrc + [os.path.join(HARNESS, x) for x in sources]:
        base = os.path.basename(s)
        fl = ["-O1"] if base == "json.cpp" else cflags + (LIBFLAGS.get(flavor, []) if s in libsrc else [])
        key = _digest([s], " ".join(fl + COMMON) + ("" if base == "json.cpp" else hkey))
        o = os.path.join(BUILD, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, fl, o))

    def comp(j):
        s, fl, o = j
        tmp = o + ".%d" % os.getpid()
        p = subprocess.run(["g++", *fl, *COMMON, "-c", s, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            raise Infra("cannot compile %s:\n%s" % (s, p.stderr[-3000:]))
        os.rename(tmp, o)

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(comp, jobs))
    key = hashlib.sha256((" ".join(objs) + " ".join(lflags)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (driver, flavor, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        p = subprocess.run(["g++", *objs, *lflags, "-pthread", *LIBS, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            raise Infra("cannot link %s:\n%s" % (driver, p.stderr[-3000:]))
        os.rename(tmp, exe)
    return exe


# --------------------------------------------------------------------------
# scratch space

class Scratch:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=BUILD)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# --------------------------------------------------------------------------
# TLC

def tlc(scratch, module, cfg, data=(), workers=NPROC, timeout=800, name=None, extra=(), heap="6g", deadlock=False):
    """Run TLC on spec/<module>.tla in a scratch directory. data: (name, list of
    objects) pairs written as ndjson.  Returns (ok, printed lines, full text)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch.dir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for fn, rows in data:
        with open(os.path.join(d, fn), "w") as f:
            for r in rows:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-cp", tlc_classpath(), "tlc2.TLC", *([] if deadlock else ["-deadlock"]),
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "states"), *extra,
           "-config", module + ".cfg", module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on " + module)
    text = p.stdout + p.stderr
    lines = []
    for ln in text.splitlines():
        if ln.startswith('"@@'):
            try:
                lines.append(json.loads(ln)[2:])
            except ValueError:
                lines.append(ln[3:-1])
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, lines, text


def counts(text):
    import re
    m = re.findall(r"([0-9,]+) states generated, ([0-9,]+) distinct states found", text)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def model(rep, sc, module, cfg, name, **kw):
    """Exhaustive model checking of a design; the design itself must be right."""
    rc, lines, text = tlc(sc, module, cfg, **kw)
    if rc != 0:
        raise Infra("the model %s does not satisfy its properties:\n%s" % (module, text[-4000:]))
    gen, distinct = counts(text)
    rep.states += distinct
    rep.transitions += gen
    rep.covered(name, model=module, distinct_states=distinct, states_generated=gen, exhaustive_within_bounds=True)
    return lines


_cp = None


def tlc_classpath():
    global _cp
    if _cp is None:
        for t in ("/opt/veriftools/tla", ):
            jars = [os.path.join(t, f) for f in sorted(os.listdir(t)) if f.endswith(".jar")]
            _cp = ":".join(jars)
    return _cp


# --------------------------------------------------------------------------
# drivers

def run_cases(exe, cases, scratch, env=None, limit=10, per_proc=None, max_fail=6, args=()):
    """Run a driver over cases in parallel shards.  Adds case['obs'].  A case
    that kills the driver gets obs.r = crash or hang and the rest goes on."""
    shards = [cases[i::NPROC] for i in range(NPROC)] if per_proc is None else [cases[i:i + per_proc] for i in range(0, len(cases), per_proc)]
    shards = [s for s in shards if s]

    def one(k):
        todo = list(shards[k])
        fails = 0
        while todo:
            inp = scratch.path("in-%d-%d" % (k, fails))
            outp = scratch.path("out-%d-%d" % (k, fails))
            with open(inp, "w") as f:
                for c in todo:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            open(outp, "w").close()
            e = dict(os.environ)
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:allocator_may_return_null=1:detect_stack_use_after_return=0"
            e["VERIF_SOCKET"] = scratch.path("s%d" % k)
            e.update(env or {})
            total = 60 + limit * 3 + len(todo) * 2
            with open(scratch.path("err-%d" % k), "w+") as errf:
                try:
                    p = subprocess.run([exe, inp, outp, str(limit), *args], env=e, stdout=errf, stderr=errf, timeout=total)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                errf.seek(0)
                err = errf.read()[-4000:]
            done = {}
            with open(outp) as f:
                for ln in f:
                    if ln.endswith("\n"):
                        r = json.loads(ln)
                        done[r["id"]] = r["obs"]
            rest = []
            for c in todo:
                if c["id"] in done:
                    c["obs"] = done[c["id"]]
                else:
                    rest.append(c)
            if rc == 0:
                if rest:
                    raise Infra("driver lost cases: " + err)
                break
            if rc == 2:
                raise Infra("driver cannot start: " + err)
            if not rest:
                break
            rest[0]["obs"] = {"r": "hang" if rc in (77, "timeout") else "crash", "what": summarize(err, rc)}
            fails += 1
            todo = rest[1:]
            if fails >= max_fail:
                for c in todo:
                    c["obs"] = {"r": "skipped"}
                break

    with ThreadPoolExecutor(len(shards) or 1) as ex:
        list(ex.map(one, range(len(shards))))
    return cases


def summarize(err, rc):
    for ln in err.splitlines():
        if "ERROR: AddressSanitizer" in ln or "Assertion" in ln or "terminate called" in ln or "@@HANG" in ln or "hard rss" in ln or "what():" in ln:
            return "%s (rc %s)" % (ln.strip()[:300], rc)
    return "rc %s %s" % (rc, err[-300:])


# --------------------------------------------------------------------------
# reporting

def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            if ln.strip():
                out.append(json.loads(ln))
    return out


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.violations, self.cover, self.known = [], [], []
        self.infra = None

    def covered(self, what, **kw):
        self.cover.append(dict(what=what, **kw))
        log("covered:", what, kw)

    def violation(self, what, data):
        self.violations.append(dict(what=what, data=data))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        findings = [f for f in known_findings() if f.get("property") == self.prop and f.get("status") == "known"]
        fresh = []
        for v in self.violations:
            for f in findings:
                if f.get("match") and f["match"] in json.dumps(v, sort_keys=True):
                    if f not in self.known:
                        self.known.append(f)
                    break
            else:
                fresh.append(v)
        for f in findings:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        rep = os.path.join(EVIDENCE, self.prop + ".replay.json")
        if os.path.exists(rep):
            os.unlink(rep)
        if fresh:
            with open(rep, "w") as f:
                json.dump(dict(property=self.prop, seed=SEED, tier=TIER, violations=fresh[:20]), f, indent=1)
        write_evidence(self, fresh)
        for v in fresh[:5]:
            print("  " + v["what"][:1500])
        if fresh:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep), flush=True)
            return 1
        return 0


def _report_init(self, prop, level):
    self.prop, self.level = prop, level
    self.violations, self.cover, self.known, self.samples = [], [], [], []
    self.evaluations = self.distinct = self.states = self.transitions = self.traces = 0
    self.rule = ""
    self.assumptions = []


def _sample(self, xs):
    for x in xs:
        s = json.dumps(x)
        self.samples.append(x if len(s) < 1500 else s[:1500])
    self.samples = self.samples[:12]


Report.__init__ = _report_init
Report.sample = _sample


def write_evidence(rep, fresh):
    cov = {"parts": rep.cover, "samples": rep.samples or ["none"], "rule": rep.rule,
           "evaluations": rep.evaluations, "distinct_nontrivial": rep.distinct}
    if rep.level == "model_checking":
        cov.update(states=rep.states, transitions=rep.transitions, traces_validated_against_impl=rep.traces)
    ev = dict(property=rep.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=rep.level, coverage=cov,
              assumptions=rep.assumptions, wall_s=round(time.time() - T0, 1), violations=len(fresh))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
