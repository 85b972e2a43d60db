"""Shared machinery of the checks: build the executor from /repo's working tree, run operations on
the real code, let TLC judge what was observed against the TLA+ specification, write evidence."""
import concurrent.futures, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORKERS_N = os.cpu_count() or 4
WORKERS = str(WORKERS_N)
JUDGES = int(os.environ.get("VERIF_JUDGES", 4))
LOCK = threading.Lock()


# the executors, and the crates of the repository each is built from
EXES = {"harness": "conform", "harness_m": "conform_m", "harness_v": "conform_v"}
CRATES = {"harness": ["pact_models"], "harness_m": ["pact_models", "pact_matching"], "harness_v": ["pact_models", "pact_matching", "pact_verifier"]}


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- build
def _src_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, dn, files in os.walk(d):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith((".rs", ".toml", ".lock", ".json")) or "timezone" in root:
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build(crate="harness"):
    """cargo build of the executor against /repo's current tree (never trusting file times)"""
    if os.environ.get("VERIF_EXE"):      # development only: an executor built elsewhere
        return os.path.join(os.environ["VERIF_EXE"], EXES[crate])
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", TZ="UTC")
        env.pop("RUSTFLAGS", None)
        crates = CRATES[crate]
        want = _src_hash([os.path.join(REPO, "rust", c) for c in crates])
        stamp = os.path.join(TARGET, ".srchash-" + crate)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        cdir = os.path.join(VERIF, crate)
        if have != want:
            for c in crates:
                subprocess.run(["cargo", "clean", "--offline", "-p", c], cwd=cdir, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=cdir, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            raise ToolError("the executor does not build against the current tree")
        with open(stamp, "w") as f:
            f.write(want)
    return os.path.join(TARGET, "debug", EXES[crate])


# ---------------------------------------------------------------- running the real code
def execute(exe, ops, timeout=300, env=None):
    """ops: list of {"op","args"}; returns the list of observed results, in order.  A process death
    (abort, stack overflow) or hang is attributed to the line it happened on and the rest is rerun."""
    results = []
    d = tempfile.mkdtemp(prefix="verif-exec-")
    e = dict(os.environ, TZ="UTC", RUST_BACKTRACE="0", CONFORM_FLUSH="1")
    e.update(env or {})
    try:
        todo = list(ops)
        deaths = 0
        while todo:
            fin, fout = os.path.join(d, "in"), os.path.join(d, "out")
            with open(fin, "w") as f:
                for o in todo:
                    f.write(json.dumps(o) + "\n")
            kind = None
            try:
                p = subprocess.run([exe, "exec", fin, fout], env=e, timeout=timeout,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
                if p.returncode != 0:
                    kind = "crash"
            except subprocess.TimeoutExpired:
                kind = "hang"
            got = []
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
            results += got
            if kind is None:
                if len(got) != len(todo):
                    raise ToolError("executor answered %d of %d operations" % (len(got), len(todo)))
                break
            if len(got) >= len(todo):
                break
            deaths += 1
            if deaths > 50:
                raise ToolError("executor died more than 50 times")
            results.append({"k": "panic", "v": "process " + kind})
            todo = todo[len(got) + 1:]
            if kind == "hang":
                timeout = min(timeout, 20)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for r in results:
        if r["k"] in ("err", "panic") and str(r["v"]).startswith("HARNESS"):
            raise ToolError(r["v"])
    return results


# ---------------------------------------------------------------- encodings for TLC
def cs(s):
    """a string as the sequence of its code points"""
    return [ord(c) for c in s]


def enc(v):
    """JSON value as a tagged tree TLC can compare; object members sorted by key"""
    if v is None:
        return ["n"]
    if v is True:
        return ["b", 1]
    if v is False:
        return ["b", 0]
    if isinstance(v, int):
        return ["i", v] if -2**31 <= v < 2**31 else ["f", cs(str(v))]
    if isinstance(v, float):
        return ["f", cs(repr(v))]
    if isinstance(v, str):
        return ["s", cs(v)]
    if isinstance(v, list):
        return ["a", [enc(x) for x in v]]
    return ["o", [[cs(k), enc(v[k])] for k in sorted(v)]]


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.runs = []


def _tlc(module, cfg, env=None, timeout=600, workers=WORKERS, extra=(), heap="12g"):
    meta = tempfile.mkdtemp(prefix="verif-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
           "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def _stats(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(tlc, module, cfg=None, timeout=600, workers=WORKERS, extra=(), env=None):
    """exhaustive run of a specification model; returns the VEC lines it emitted.
    A violated invariant here is a defect of the specification (or of the design), never of one
    change to the code: it is a tool error."""
    rc, out = _tlc(module, cfg or module + ".cfg", timeout=timeout, workers=workers, extra=extra, env=env)
    gen, dist = _stats(out)
    if rc != 0 or ("No error has been found" not in out and "-simulate" not in extra):
        print(out[-4000:])
        raise ToolError("TLC reports an error in the model " + module)
    tlc.states += dist
    tlc.transitions += gen
    tlc.runs.append({"module": module, "states": dist, "transitions": gen})
    vecs = []
    for line in out.splitlines():
        if line.startswith('"VEC '):
            vecs.append(json.loads(json.loads(line)[4:]))
    return vecs


def judge(tlc, module, events, timeout=800, cfg=None):
    """let TLC decide every event against Accept of the trace module; returns rejected indices
    (0-based), each with the reason 'rejected' or 'not interpretable'"""
    if not events:
        return {}
    # workers of one TLC get in each other's way: several TLCs with one part of the trace each
    parts = max(1, min(JUDGES, len(events) // 200))
    bad = {}
    with concurrent.futures.ThreadPoolExecutor(parts) as pool:
        jobs = [pool.submit(_judge, tlc, module, events[k::parts], timeout, cfg, max(1, WORKERS_N // parts)) for k in range(parts)]
        for k, job in enumerate(jobs):
            bad.update({i * parts + k: why for i, why in job.result().items()})
    return bad


def _judge(tlc, module, events, timeout, cfg, workers):
    fd, path = tempfile.mkstemp(prefix="verif-trace-", suffix=".ndjson")
    bad = {}
    idx = list(range(len(events)))
    try:
        for attempt in range(12):
            with open(path, "w") as f:
                for i in idx:
                    f.write(json.dumps(events[i]) + "\n")
            rc, out = _tlc(module, cfg or module + ".cfg", env={"TRACE": path}, timeout=timeout, workers=str(workers), heap="6g")
            gen, dist = _stats(out)
            cur = {}
            for m in re.finditer(r'<<"REJECT", (\d+)>>', out):
                cur[idx[int(m.group(1)) - 1]] = "rejected"
            if rc == 0 and "No error has been found" in out:
                if dist != 2 * len(idx):
                    raise ToolError("trace of %s not consumed: %d states for %d events" % (module, dist, len(idx)))
                bad.update(cur)
                with LOCK:
                    tlc.states += dist
                    tlc.transitions += gen
                    tlc.runs.append({"module": module, "states": dist, "transitions": gen})
                return bad
            # an evaluation error: the observed result has a shape the specification cannot interpret
            m = re.search(r"l = (\d+)", out)
            if not m or "rror" not in out:
                print(out[-4000:])
                raise ToolError("TLC failed on " + module)
            k = idx[int(m.group(1)) - 1]
            if os.environ.get("VERIF_DEBUG"):
                print(out[-3000:])
            bad[k] = "not interpretable by the specification"
            idx.remove(k)
            if not idx:
                return bad
        # many uninterpretable results: report the ones found so far
        return bad
    finally:
        os.unlink(path)


# ---------------------------------------------------------------- the frame of a check
def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tlc = Tlc()
        self.rng = random.Random(SEED * 1000003 + int(re.sub(r"\D", "", prop) or 0))
        self.thorough = TIER == "thorough"
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []      # (what, replay object)
        self.notes = {}
        self.selftest = 0
        self.known_hit = {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, **kw):
        return model_check(self.tlc, module, **kw)

    def conform(self, exe, module, ops, encode, corrupt=None, classify=None, cfg=None, timeout=300,
                env=None, what="observed behaviour is not one the specification allows"):
        """execute ops on the real code, encode every observation as a trace event and let TLC judge.
        classify(op, res) -> id of a known finding, or None."""
        res = execute(exe, ops, timeout=timeout, env=env)
        events, back = [], []
        for o, r in zip(ops, res):
            e = encode(o, r)
            if e is None:
                continue
            for x in (e if isinstance(e, list) else [e]):     # one operation may be several events
                events.append(x)
                back.append((o, r))
        nreal = len(events)
        # binding self-test: corrupted observations must be rejected
        ncor = 0
        if corrupt:
            for i in self.rng.sample(range(nreal), min(nreal, 40)):
                c = corrupt(json.loads(json.dumps(events[i])))
                if c is not None and c != events[i]:
                    events.append(c)
                    ncor += 1
                    back.append(("corrupt", i))
        bad = judge(self.tlc, module, events, cfg=cfg)
        for j in range(nreal, nreal + ncor):
            src = back[j][1]
            if j not in bad and src not in bad:
                print(json.dumps(events[j])[:2000])
                raise ToolError("the specification accepts a corrupted observation: the binding is vacuous")
        self.selftest += ncor
        self.events += nreal
        self.traces += nreal
        for o, r in list(zip(ops, res))[:2]:
            self.samples.append({"op": o["op"], "args": o["args"], "observed": r})
        for j in sorted(bad):
            if j >= nreal:
                continue
            o, r = back[j]
            kid = classify(o, r) if classify else None
            if kid and any(k["id"] == kid for k in known_findings(self.prop)):
                self.known_hit.setdefault(kid, o)
                continue
            self.violations.append((what if bad[j] == "rejected" else what + " (" + bad[j] + ")",
                                    {"op": o["op"], "args": o["args"], "observed": r, "module": module}))
        return res

    def violation(self, what, obj):
        self.violations.append((what, obj))

    def finish(self, level="model_checking", assumptions=(), extra=None):
        for k in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.tlc.states, "transitions": self.tlc.transitions,
               "traces_validated_against_impl": self.traces,
               "tlc_runs": self.tlc.runs,
               "corrupted_observations_rejected": self.selftest,
               "samples": self.samples[:6] or ["none"]}
        cov.update(extra or {})
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": level, "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([dict(v[1], what=v[0], property=self.prop) for v in self.violations[:50]], f, indent=1)
            for w, o in self.violations[:5]:
                print("  %s: %s" % (w, json.dumps(o)[:1500]))
            print("%d violation(s)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held on everything explored (%d events judged by TLC, %d model states, %.1fs)" % (
            self.prop, self.events, self.tlc.states, time.time() - self.t0))
        return 0
