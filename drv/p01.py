"""P01: merging pacts (Merge.tla)"""
import core
from core import cs


def txt(codes):
    return "".join(chr(c) for c in codes)


def pact_json(model, cons, prov, ints, plugins=()):
    """abstract pact -> pact file JSON"""
    out = []
    for i in ints:
        j = {"description": i["desc"]}
        if i["states"]:
            j["providerStates"] = [dict(name=s["name"], **({"params": s["params"]} if s["params"] else {})) for s in i["states"]]
        method, path, status, body = i["mark"]
        if i["kind"] == "http":
            rq, rs = {"method": method, "path": path}, {"status": status}
            if body:
                if model == "v4":
                    rs["body"] = {"content": body, "contentType": "text/plain", "encoded": False}
                else:
                    rs["headers"] = {"Content-Type": "text/plain"}
                    rs["body"] = body
            j["request"], j["response"] = rq, rs
        elif i["kind"] == "async":
            if model == "v4":
                j["contents"] = {"content": body, "contentType": "text/plain", "encoded": False}
            else:
                j["contents"] = body
                j["metadata"] = {"contentType": "text/plain"}
        else:
            j["request"] = {"contents": {"content": body, "contentType": "text/plain", "encoded": False}}
            j["response"] = [{"contents": {"content": "r", "contentType": "text/plain", "encoded": False}}]
        if model == "v4":
            j["type"] = {"http": "Synchronous/HTTP", "async": "Asynchronous/Messages", "sync": "Synchronous/Messages"}[i["kind"]]
            if i["key"]:
                j["key"] = i["key"]
        out.append(j)
    p = {"consumer": {"name": cons}, "provider": {"name": prov},
         "metadata": {"pactSpecification": {"version": "4.0" if model == "v4" else "3.0.0"}}}
    p["messages" if model == "v3m" else "interactions"] = out
    if plugins:
        p["metadata"]["plugins"] = [{"name": n, "version": v, "configuration": {}} for n, v in plugins]
    return p


def from_tla(p):
    """pact emitted by TLC -> (model, json)"""
    ints = [{"kind": i["kind"], "desc": txt(i["desc"]),
             "states": [{"name": txt(s["name"]), "params": core.json.loads(txt(s["params"]))} for s in i["states"]],
             "key": txt(i["key"][0]) if i["key"] else None,
             "mark": [txt(i["mark"][0]), txt(i["mark"][1]), i["mark"][2], txt(i["mark"][3])]} for i in p["ints"]]
    return p["model"], pact_json(p["model"], txt(p["cons"]), txt(p["prov"]), ints)


def abs_int(i, model):
    return {"kind": i["kind"], "desc": cs(i["desc"]),
            "states": [{"name": cs(s["name"]), "params": cs(s["params"])} for s in i["states"]],
            "key": [cs(i["key"])] if i["key"] is not None and model == "v4" else [],
            "mark": [cs(i["mark"][0]), cs(i["mark"][1]), i["mark"][2], cs(i["mark"][3])]}


def abs_pact(s, model):
    return {"cons": cs(s["cons"]), "prov": cs(s["prov"]), "model": model,
            "ints": [abs_int(i, model) for i in s["ints"]], "plugins": [[cs(a), cs(b)] for a, b in s["plugins"]]}


def encode(o, r):
    models = o["args"]["models"]
    if r["k"] != "ok":
        return {"k": r["k"], "steps": []}
    steps, cur = [], models[0]
    for m, s in zip(models, r["v"]):
        if s["ok"]:
            cur = m
        steps.append({"in": abs_pact(s["in"], m), "ok": s["ok"], "out": abs_pact(s["out"], cur)})
    return {"k": "ok", "steps": steps}


def corrupt(e):
    if e["k"] != "ok" or len(e["steps"]) < 2:
        return None
    s = e["steps"][-1]
    if not s["ok"]:
        s["ok"] = True
        s["out"]["cons"] = s["out"]["cons"] + [33]
    elif s["out"]["ints"]:
        s["out"]["ints"] = s["out"]["ints"][1:] if len(e["steps"]) % 2 else s["out"]["ints"] + [s["out"]["ints"][-1]]
    else:
        s["ok"] = False
    return e


def rand_history(rng):
    models = [rng.choice(["v3h", "v3m", "v4", "v4"])]
    mixed = rng.random() < 0.2
    descs = ["a", "b", "a b", "B", "\u00e9", "z", "a request"][: rng.randint(2, 7)]
    names = ["s1", "s2", "S1", ""]
    n = rng.randint(2, 6)
    keyed = rng.random() < 0.4
    pacts = []
    ctr = [0]

    def interaction(m):
        kind = {"v3h": "http", "v3m": "async"}.get(m) or rng.choice(["http", "http", "async", "sync"])
        ctr[0] += 1
        p = rng.choice([0, 0, 0, ctr[0]])
        d = rng.choice(descs)
        st = [{"name": rng.choice(names), "params": rng.choice([{}, {}, {"id": rng.randint(1, 2)}])} for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        key = rng.choice(["k1", "k2", "k3", "k4"]) if m == "v4" and keyed and rng.random() < 0.8 else None
        if kind == "http":
            mark = [rng.choice(["GET", "GET", "POST"]) if p else "GET", "/p%d" % (p or len(d)), 200 if not p else rng.choice([200, 201]), rng.choice(["", "", "b%d" % ctr[0]])]
        else:
            mark = ["", "", 0, rng.choice(["m", "m%d" % ctr[0]])]
        return {"kind": kind, "desc": d, "states": st, "key": key, "mark": mark}

    for k in range(n):
        m = models[0] if not mixed else rng.choice(["v3h", "v3m", "v4"])
        if k > 0:
            models.append(m)
        else:
            models[0] = m
        ints = [interaction(m) for _ in range(rng.randint(0, 5))]
        if pacts and rng.random() < 0.3:
            ints = list(pacts[-1][1])
            rng.shuffle(ints)
            if m != pacts[-1][0]:
                ints = [interaction(m)]
        plugins = [("pl%d" % rng.randint(1, 3), "1.%d" % rng.randint(0, 1))] if m == "v4" and rng.random() < 0.3 else []
        cons = "c" if rng.random() < 0.95 else "d"
        prov = "p" if rng.random() < 0.95 else "q"
        pacts.append((m, ints, cons, prov, plugins))
    return {"op": "merge.history", "args": {"models": [p[0] for p in pacts],
            "pacts": [pact_json(m, c, pv, i, pl) for m, i, c, pv, pl in pacts]}}


def run(c):
    exe = core.build()
    ops = []
    for m in ("v3h", "v3m", "v4"):
        c.model("MC_Merge", cfg="MC_Merge_%s.cfg" % m)
        for h in c.model("MC_Merge", cfg="MC_Merge_%s_vec.cfg" % m):
            ps = [from_tla(p) for p in h]
            ops.append({"op": "merge.history", "args": {"models": [p[0] for p in ps], "pacts": [p[1] for p in ps]}})
    c.notes["histories_enumerated_by_tlc"] = len(ops)
    ops += [rand_history(c.rng) for _ in range(c.n(6000, 60000))]
    c.conform(exe, "Tr_Merge", ops, encode, corrupt)
    return c.finish()
