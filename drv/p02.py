"""P02: concurrent writers of one pact file (WritePact.tla, PactFile.tla).  Real processes are run
under schedule control (harness/sched.c): every interleaving of their system calls on the file within
the preemption bound is executed, and TLC decides whether the recorded history is linearizable."""
import json, multiprocessing, os, re, shutil, subprocess, tempfile
import core

MODIFY = ("truncate", "write", "open_trunc", "rename")


def pact(cons, ids, n=1):
    return {"consumer": {"name": cons}, "provider": {"name": "p"},
            "interactions": [{"description": i, "request": {"method": "GET", "path": "/" + i},
                              "response": {"status": 200}} for i in ids],
            "metadata": {"pactSpecification": {"version": "3.0.0"}}}


def v4pact(cons, ids):
    p = pact(cons, ids)
    p["metadata"] = {"pactSpecification": {"version": "4.0"}}
    for i in p["interactions"]:
        i["type"] = "Synchronous/HTTP"
    return p


def w(cons, *ids, overwrite=False, v4=False):
    return {"kind": "write", "cons": cons, "ids": list(ids), "overwrite": overwrite,
            "pact": (v4pact if v4 else pact)(cons, ids)}


R = {"kind": "read"}
SCENARIOS = {
    "new file, two writers": (None, [[w("c", "a")], [w("c", "b")]]),
    "existing file, two writers": (w("c", "z"), [[w("c", "a")], [w("c", "b")]]),
    "existing file, V4 writers": (w("c", "z", v4=True), [[w("c", "a", v4=True)], [w("c", "b", "y", v4=True)]]),
    "writer and reader": (w("c", "z"), [[w("c", "a")], [R, R]]),
    "new file, writer and reader": (None, [[w("c", "a")], [R]]),
    "overwriting writer and merging writer": (w("c", "z"), [[w("c", "a", overwrite=True)], [w("c", "b")]]),
    "overwriting writer and reader": (w("c", "z"), [[w("c", "a", overwrite=True)], [R, R]]),
    "unmergeable writer": (w("c", "z"), [[w("d", "a")], [w("c", "b")]]),
    "same interaction twice": (w("c", "z"), [[w("c", "a")], [w("c", "a"), w("c", "b")]]),
    "three writers": (None, [[w("c", "a")], [w("c", "b")], [w("c", "d")]]),
}


class Proc:
    def __init__(self, exe, so, file, ops, d, k):
        opf = os.path.join(d, "ops%d" % k)
        json.dump([{x: o[x] for x in o if x in ("kind", "pact", "overwrite")} for o in ops], open(opf, "w"))
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()

        def pre():
            os.dup2(w1, 198)
            os.dup2(r2, 199)
        env = dict(os.environ, LD_PRELOAD=so, SCHED_FILE=file)
        self.p = subprocess.Popen([exe, "writer", file, opf], env=env, close_fds=False, preexec_fn=pre,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(w1)
        os.close(r2)
        self.rd, self.wr = os.fdopen(r1, "r"), w2
        self.at, self.ops, self.mod, self.wrote = None, ops, False, False

    def wait_stop(self):
        line = self.rd.readline()
        self.at = line.strip() if line else None
        return self.at

    def release(self, c=b"g"):
        if self.at in MODIFY:
            self.mod = True
            if self.at == "write":
                self.wrote = True
        os.write(self.wr, c)

    def close(self):
        try:
            os.close(self.wr)
        except OSError:
            pass
        self.rd.close()
        self.p.kill()
        self.p.wait()


def file_state(path):
    if not os.path.exists(path):
        return {"ev": "final", "full": False, "cons": "", "ids": []}
    s = open(path).read()
    if s == "":
        return {"ev": "final", "full": False, "cons": "", "ids": []}
    try:
        j = json.loads(s)
        return {"ev": "final", "full": True, "cons": j["consumer"]["name"], "ids": [i["description"] for i in j["interactions"]]}
    except Exception:
        return {"ev": "final", "full": True, "cons": "<torn>", "ids": []}


def event_op(o):
    return {"kind": "read"} if o["kind"] == "read" else {k: o[k] for k in ("kind", "cons", "ids", "overwrite")}


def run_schedule(job):
    """job = (exe, so, scenario, first, switches{step: proc}, kill step or None) -> record"""
    exe, so, name, first, switches, kill = job
    seed, procs = SCENARIOS[name]
    d = tempfile.mkdtemp(prefix="verif-sched-")
    file = os.path.join(d, "pacts", "c-p.json")
    events, log, ps = [], [], []
    torn = False
    try:
        if seed:
            os.makedirs(os.path.dirname(file))
            opf = os.path.join(d, "seed")
            json.dump([{x: seed[x] for x in ("kind", "pact", "overwrite")}], open(opf, "w"))
            subprocess.run([exe, "writer", file, opf], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            events += [{"ev": "begin", "p": 6, "op": event_op(seed)}, {"ev": "end", "p": 6, "res": "ok", "cons": "", "ids": []}]
        ps = [Proc(exe, so, file, ops, d, k) for k, ops in enumerate(procs)]
        for p in ps:
            p.wait_stop()
        cur, step = first, 0
        while True:
            live = [k for k, p in enumerate(ps) if p.at is not None]
            if not live:
                break
            if step in switches and switches[step] in live:
                cur = switches[step]
            if cur not in live:
                cur = live[0]
            p = ps[cur]
            log.append("%d:%s" % (cur + 1, p.at.split(" ")[0]))
            if p.at.startswith("begin"):
                p.mod = p.wrote = False
                events.append({"ev": "begin", "p": cur + 1, "op": event_op(p.ops[int(p.at.split()[1])])})
            if kill == step and not p.at.startswith("begin") and not p.at.startswith("end"):
                if p.mod and (p.at == "write" or not p.wrote):
                    torn = True
                p.release(b"k")
                p.p.wait()
                p.at = None
                events.append({"ev": "kill", "p": cur + 1, "wrote": p.wrote})
                step += 1
                if torn:
                    break
                continue
            p.release()
            p.wait_stop()
            if p.at and p.at.startswith("end"):
                r = json.loads(p.at.split(" ", 2)[2])
                e = {"ev": "end", "p": cur + 1, "res": r[0] if r[0] in ("ok", "err") else "crash", "cons": "", "ids": []}
                if r[0] == "ok" and len(r) > 1:
                    e["cons"], e["ids"] = r[1][0], r[1][1]
                events.append(e)
            step += 1
            if step > 600:
                events.append({"ev": "end", "p": cur + 1, "res": "livelock", "cons": "", "ids": []})
                break
        if not torn:
            events.append(file_state(file))
    finally:
        for p in ps:
            p.close()
        shutil.rmtree(d, ignore_errors=True)
    return {"scenario": name, "first": first, "switches": {str(k): v for k, v in switches.items()}, "kill": kill, "steps": step, "log": log,
            "torn": torn, "events": events}


def stress(job):
    """free-running processes and threads writing one file; only the final content is judged"""
    exe, k = job
    d = tempfile.mkdtemp(prefix="verif-stress-")
    file = os.path.join(d, "x", "c-p.json")
    evs, ps = [], []
    try:
        n = 0
        for pi in range(2):
            ops = [w("c", "s%d" % (n + i)) for i in range(2 if k % 2 else 1)]
            n += len(ops)
            opf = os.path.join(d, "ops%d" % pi)
            json.dump([{x: o[x] for x in ("kind", "pact", "overwrite")} for o in ops], open(opf, "w"))
            ps.append((ops, subprocess.Popen([exe, "writer", file, opf, "threads"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        pid = 0
        ends = []
        for ops, p in ps:
            out, _ = p.communicate(timeout=60)
            rs = json.loads(out)
            for o, r in zip(ops, rs):
                pid += 1
                evs.append({"ev": "begin", "p": pid, "op": event_op(o)})
                ends.append({"ev": "end", "p": pid, "res": r[0] if r[0] in ("ok", "err") else "crash", "cons": "", "ids": []})
        evs += ends + [file_state(file)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"scenario": "free running %d" % k, "first": 0, "switches": {}, "kill": None, "steps": 0, "log": [], "torn": False, "events": evs}


def judge(c, recs, record=True):
    fd, path = tempfile.mkstemp(prefix="verif-trace-", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for r in recs:
            f.write(json.dumps({"events": r["events"]}) + "\n")
    rc, out = core._tlc("Tr_PactFile", "Tr_PactFile.cfg", env={"TRACE": path})
    os.unlink(path)
    if rc != 0:
        print(out[-3000:])
        raise core.ToolError("TLC failed on Tr_PactFile")
    gen, dist = core._stats(out)
    c.tlc.states += dist
    c.tlc.transitions += gen
    c.tlc.runs.append({"module": "Tr_PactFile", "states": dist, "transitions": gen})
    acc = {int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
    return [i for i in range(len(recs)) if i not in acc]


def run(c):
    exe = core.build()
    c.model("WritePact", cfg="WritePact_locked.cfg")
    rc, out = core._tlc("WritePact", "WritePact_split.cfg")
    if "is violated" not in out:
        raise core.ToolError("the protocol without a lock around the update is not rejected by the specification")
    d = tempfile.mkdtemp(prefix="verif-so-")
    so = os.path.join(d, "sched.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(core.VERIF, "harness", "sched.c"), "-ldl"], check=True)
    try:
        with multiprocessing.Pool(8) as pool:
            base = []
            for name, (_, procs) in SCENARIOS.items():
                for f in range(len(procs)):
                    base.append((exe, so, name, f, {}, None))
            recs = pool.map(run_schedule, base)
            jobs = []
            for b, r in zip(base, recs):
                name, first = b[2], b[3]
                np = len(SCENARIOS[name][1])
                L = r["steps"]
                if L < 8:
                    raise core.ToolError("the processes are not under schedule control: %r" % (r["log"],))
                one = [{s: q} for s in range(1, L) for q in range(np) if q != first]
                two = [{s: q, s2: q2} for s in range(1, L) for q in range(np) for s2 in range(s + 1, L + 4) for q2 in range(np) if q2 != q]
                three = [{s: q, s2: q2, s3: q3} for s in range(1, L, 2) for q in range(np) for s2 in range(s + 1, L + 4, 2) for q2 in range(np) if q2 != q
                         for s3 in range(s2 + 1, L + 6, 3) for q3 in range(np) if q3 != q2]
                c.rng.shuffle(two)
                c.rng.shuffle(three)
                two = two[: c.n(90, 10**6)]
                three = three[: c.n(30, 1500)]
                for s in one + two + three:
                    jobs.append((exe, so, name, first, s, None))
                for s in range(1, L):
                    jobs.append((exe, so, name, first, {}, s))
                for s in c.rng.sample(one, min(len(one), c.n(15, 200))):
                    jobs.append((exe, so, name, first, s, c.rng.randrange(1, L + 4)))
            recs += pool.map(run_schedule, jobs, chunksize=8)
            recs += pool.map(stress, [(exe, k) for k in range(c.n(40, 400))])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    used = [r for r in recs if not r["torn"]]
    bad = judge(c, used)
    # binding self-test: a lost update, a phantom and a spurious error must be rejected
    cor = []
    for r in c.rng.sample(used, 60):
        r2 = json.loads(json.dumps(r))
        fin = r2["events"][-1]
        if fin["ev"] == "final" and fin["full"] and fin["ids"] and r2["kill"] is None:
            fin["ids"] = fin["ids"][1:] if c.rng.random() < 0.5 else fin["ids"] + ["phantom"]
            cor.append(r2)
    if cor and len(judge(c, cor)) != len(cor):
        raise core.ToolError("the specification accepts a corrupted history: the binding is vacuous")
    c.selftest = len(cor)
    c.traces = c.events = len(used)
    c.notes["schedules_executed"] = len(recs)
    c.notes["schedules_with_a_kill"] = sum(1 for r in recs if r["kill"] is not None)
    c.notes["torn_by_a_kill_while_replacing_the_content_not_judged"] = len(recs) - len(used)
    c.samples = [{"scenario": r["scenario"], "schedule": r["log"], "events": r["events"]} for r in used[5:7]]
    for i in bad:
        c.violation("history is not linearizable to one atomic pact file", used[i])
    return c.finish(assumptions=["flock(2) of this kernel", "a process killed between truncating and writing the file is out of scope (the file is replaced in place)"])
