"""P04: conversions between the models of the versions (Convert.tla)"""
import core
from core import cs, enc
from p03 import pact, inter, part, members, rtok, rpact, rinter, PNAMES, VALS
from p15 import enc_body, enc_oct


def some(x, f):
    return [] if x is None else [f(x)]


def encode(o, r):
    a, v, k = o["args"], r["v"], r["k"]
    op = o["op"].split(".")[1]
    e = {"op": op, "k": k}
    if k != "ok":
        if op == "upgrade":
            e["d"] = pact(a["pact"])
        return e
    if op == "convert":
        g = v["get"]
        e.update(d=inter(v["d"]), v4=inter(v["v4"]), kinds=v["kinds"], muts=v["muts"], type=cs(v["type"]), type4=cs(v["type4"]),
                 v4s=[some(x, inter) for x in v["v4s"]], copies=all(x == v["d"] for x in v["copies"]), shown=v["shown"],
                 parts=[[part(x), inter(m), part(y)] for x, m, y in v["parts"]], id=some(g["id"], cs), description=cs(g["description"]),
                 states=[[cs(s[0]), members(s[1])] for s in g["states"]], contents=enc_body(g["contents"]), verify=enc_body(g["verify"]), ct=enc_oct(g["ct"]),
                 rules=some(g["rules"], lambda x: rtok(x[0])), pending=g["pending"], set=inter(v["set"]), **{n: some(v[n], inter) for n in ("http", "msg", "http4", "msg4")})
        return e
    if op == "forms":
        g = v["get"]
        steps, after = [], []
        for st, s in zip(a["steps"], v["steps"]):
            x = st[1]
            steps.append(["add", inter(s["what"])] if st[0] == "add" else ["plugin", cs(x[0]), cs(x[1]), members(x[2] or [])] if st[0] == "plugin" else ["version", cs(x[0]), cs(x[1])])
            after.append([s["ok"], pact(s["d"])])
        e.update(spec=a["spec"], d=pact(v["d"]), v4=some(v["v4"], pact), http=some(v["http"], pact), msg=some(v["msg"], pact), copies=all(x == v["d"] for x in v["copies"]),
                 json=some(v["json"], enc), equal=v["equal"], metadata=members(g["metadata"]), version=g["version"], isv4=g["v4"], requires=g["requires"],
                 plugins=[[cs(n), cs(x), members(m)] for n, x, m in g["plugins"]], names=[cs(g["consumer"]), cs(g["provider"])], interactions=[inter(i) for i in g["interactions"]],
                 muts=[inter(i) for i in v["muts"]], mixed=v["mixed"], has=v["has"], filter=[[inter(i) for i in f] for f in v["filter"]],
                 ids=[cs(i) for i in a["ids"]], found=[some(i, inter) for i in v["found"]], steps=steps, after=after)
        return e
    e.update(d=pact(v["d"]), from3=pact(v["from3"]), from4=pact(v["from4"]))
    return e


def corrupt(e):
    if e["k"] != "ok":
        return None
    if e["op"] == "convert":
        n = len(e["description"]) % 5
        if n == 0:
            e["v4"]["states"] = e["v4"]["states"] + [[[46], []]]
        elif n == 1:
            e["kinds"] = [not e["kinds"][0]] + e["kinds"][1:]
        elif n == 2:
            e["shown"] = False
        elif n == 3:
            e["verify"] = ["present", [1, 2, 3], ["none"], "TEXT"]
        else:
            e["set"]["id"] = []
        return e
    if e["op"] == "forms":
        n = (len(e["d"]["consumer"]) + len(e["d"]["provider"])) % 4
        if n == 0 and e["json"]:
            e["json"] = []
        elif n == 1 and e["d"]["kind"] != "v4":
            e["v4"][0]["plugins"] = [[[46], [], []]]
        elif n == 2:
            e["names"] = [e["names"][0] + [46], e["names"][1]]
        else:
            e["mixed"] = not e["mixed"]
        return e
    e["k"] = "panic"
    return e


def anyinter(rng, kinds=("http3", "msg3", "http4", "async4", "sync4")):
    k = rng.choice(kinds)
    i = rinter(rng, "V4" if k.endswith("4") else rng.choice(["V1", "V2", "V3", "V3"]) if k == "http3" else "V3", k)
    if rng.random() < 0.4:
        i["id"] = rng.choice(["a", "b", "", "\u00e9"])
    return i


def steps(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        m = rng.random()
        if m < 0.4:
            out.append(["add", anyinter(rng)])
        elif m < 0.75:
            out.append(["plugin", [rng.choice(["csv", "x"]), rng.choice(["1.2.3", ""]), rng.choice([None, [[n, rng.choice(VALS + [{"a": [1]}, {"a": {"c": None}}, [2]])] for n in rng.sample(["a", "b", ""], rng.randint(0, 3))]])]])
        else:
            out.append(["version", [rng.choice(["models", "ffi", "\u00e9"]), rng.choice(["1.0", "", "2"])]])
    return out


def run(c):
    exe = core.build()
    c.model("MC_Convert", cfg="MC_Convert_deep.cfg" if c.thorough else "MC_Convert.cfg", timeout=3000)
    c.model("MC_Convert", cfg="MC_Convert_build.cfg")
    rng = c.rng
    ops = []
    for _ in range(c.n(900, 12000)):
        ops.append({"op": "pact.convert", "args": {"i": anyinter(rng)}})
    for _ in range(c.n(700, 9000)):
        p, spec = rpact(rng, rng.choice(["V1", "V2", "V3", "V4", "V4", "V4"]))
        if p["kind"] == "v4":
            # most have one type of interaction
            if rng.random() < 0.7:
                k = rng.choice(["http4", "http4", "async4", "sync4"])
                p["interactions"] = [rinter(rng, "V4", k) for _ in p["interactions"]]
            p["plugins"] = rng.choice([p["plugins"], [["csv", "1.2.3", [["a", {"a": [0]}]]]]])
        for i in p["interactions"]:
            if rng.random() < 0.4:
                i["id"] = rng.choice(["a", "b", ""])
        ops.append({"op": "pact.forms", "args": {"pact": p, "spec": rng.choice(["V1", "V1.1", "V2", "V3", "V3", "V4", "V4", spec]), "ids": rng.sample(["a", "b", "", "none"], 2), "steps": steps(rng)}})
    for _ in range(c.n(500, 8000)):
        p, _ = rpact(rng, "V3")
        ops.append({"op": "pact.upgrade", "args": {"pact": p}})
    c.conform(exe, "Tr_Convert", ops, encode, corrupt)
    return c.finish()
