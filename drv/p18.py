"""P18: the form of pact files (Check, SchemaOk and ParseVersion of Verify.tla)"""
import copy
import core
from p03 import rpact
from p16 import mutate, SCALARS, COMPOUND, VERSIONS

SPECS = ["unknown", "V1", "V1.1", "V2", "V3", "V4"]
PARTS = ["consumer", "provider", "interactions", "metadata"]
IPARTS = ["_id", "description", "providerState", "provider_state", "providerStates", "request", "response", "key", "comments", "ProviderState", ""]
TEXTS = ["V1", "v1", "V1.1", "v1.1", "V1_1", "V2", "v2", "V3", "v3", "V4", "v4", "V5", "unknown", "", " V3", "V3 ", "1", "1.0", "1.0.0", "1.1", "1.1.0", "1.1.7", "1.2", "1.0.1", "2", "2.0", "2.0.0", "2.1", "2.0.9", "3", "3.0", "3.0.0", "3.1.0", "4", "4.0", "4.0.0", "4.1", "5.0.0", "0.1", "0", "10.0.0", "11", "1.10", "x", "3.x", "3,0"]
SETTLED = ["unknown", "", "x"]


def digits(t):
    p = t.split(".")
    return len(p) <= 3 and all(x.isascii() and x.isdigit() and len(x) < 7 and (x == "0" or x[0] != "0") for x in p)


def encode(o, r):
    a = o["args"]
    e = {"k": r["k"], "op": o["op"].split(".")[1]}
    v = r.get("v", {})
    if e["op"] == "version":
        e |= {"t": core.cs(a["text"]), "settled": digits(a["text"]) or a["text"] in SETTLED}
        return e | ({**v, "text": core.cs(v["text"])} if r["k"] == "ok" else {})
    e |= {"kind": a["kind"], "path": core.cs(a["path"]), "j": core.enc(a["json"]), "strict": a["strict"], "spec": a["spec"]}
    if r["k"] == "ok":
        e |= {"results": [[core.cs(x[0]), x[1], x[2]] for x in v["results"]], "schema": core.enc(v["schema"])}
    return e


def corrupt(e):
    if e["k"] != "ok":
        return None
    if e["op"] == "version":
        e["text"] = e["text"] + [46]
    elif e["results"]:
        r = e["results"][0]
        if len(r[0]) % 2:
            r[1] = "NOTICE"
        else:
            e["results"] = e["results"][1:]
    else:
        e["results"] = [[core.cs("/"), "ERROR", ""]]
    return e


def texts(v):
    """the versions in a document have to be ones the specification settles"""
    md = v.get("metadata") if isinstance(v, dict) else None
    for k in ("pactSpecification", "pact-specification"):
        t = md.get(k) if isinstance(md, dict) else None
        t = t.get("version") if isinstance(t, dict) else None
        if isinstance(t, str) and not digits(t) and t not in SETTLED:
            return False
    return True


def file(rng, j, kind="http", path="/"):
    return {"op": "verify.file", "args": {"kind": kind, "path": path, "json": j, "strict": rng.random() < 0.5, "spec": rng.choice(SPECS)}}


def run(c):
    exe = core.build()
    c.model("MC_Verify")
    rng = c.rng
    docs = []
    seeds = []
    for _ in range(c.n(150, 1200)):
        p, spec = rpact(rng, rng.choice(["V1", "V1.1", "V2", "V3"]))
        seeds.append({"op": "pact.round", "args": {"spec": spec, "pact": p}})
    for r in core.execute(exe, seeds):
        if r["k"] == "ok" and "interactions" in r["v"]["j1"]:
            docs.append(r["v"]["j1"])
    good = {"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [{"description": "d", "request": {}, "response": {}}], "metadata": {"pactSpecification": {"version": "3.0.0"}}}
    values = SCALARS + COMPOUND
    ops = [file(rng, d) for d in docs] + [{"op": "verify.version", "args": {"text": t}} for t in TEXTS + [str(v) for v in VERSIONS]]
    for n in range(c.n(100, 1000)):
        ops.append({"op": "verify.version", "args": {"text": ".".join(str(rng.choice([0, 1, 1, 2, 3, 4, 5, 12])) for _ in range(rng.choice([1, 2, 3, 3])))}})
    for v in values:
        for kind in ["http", "message", "v4"]:
            ops.append(file(rng, v, kind, rng.choice(["", "/", "/a/b"])))
        for k in PARTS:
            ops.append(file(rng, {k: v}))
            ops.append(file(rng, good | {k: v}))
        ops.append(file(rng, good | {"interactions": [v, good["interactions"][0]]}))
        for k in ["consumer", "provider"]:
            ops.append(file(rng, good | {k: {"name": v}}))
        for k in ["pactSpecification", "pact-specification", "pactSpecificationVersion"]:
            ops.append(file(rng, good | {"metadata": {k: v}}))
            ops.append(file(rng, good | {"metadata": {k: {"version": v}}}))
        for k in IPARTS:
            ops.append(file(rng, good | {"interactions": [{"description": "d", k: v}]}))
            if k.startswith("provider"):
                ops.append(file(rng, good | {"interactions": [{"description": "d"}, {"description": "d", k: [{"name": "s", "params": {}}, v]}]}))
                ops.append(file(rng, good | {"interactions": [{"description": "d"}, {"description": "d", k: [{"name": "s", rng.choice(["name", "params", "x"]): v}]}]}))
    for ver in VERSIONS:
        for k in ["pactSpecification", "pact-specification"]:
            for spec in SPECS:
                o = file(rng, good | {"metadata": {k: {"version": ver}} | ({"pactSpecification": {"version": rng.choice(VERSIONS)}} if rng.random() < 0.3 else {})})
                o["args"]["spec"] = spec
                ops.append(o)
    for _ in range(c.n(1500, 9000)):
        d = copy.deepcopy(rng.choice(docs))
        for i in d["interactions"]:          # what is in requests and responses is not looked at
            for k in ("request", "response"):
                if rng.random() < 0.9:
                    i[k] = {}
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            d = mutate(rng, d)
            if not isinstance(d, dict):
                break
        ops.append(file(rng, d))
    ops = [o for o in ops if o["op"] != "verify.file" or texts(o["args"]["json"])]
    c.conform(exe, "Tr_Verify", ops, encode, corrupt)
    return c.finish()
