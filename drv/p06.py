"""P06: selection of matching rules (Select.tla)"""
import itertools
import core
from core import cs
from p07 import tok, txt

PATHS = [["$"] + list(w) for n in range(0, 4) for w in itertools.product(["a", "b", "0"], repeat=n)]


def rule(v):
    return [cs(v[0])] + [cs(x) if isinstance(x, str) else x for x in v[1:]]


def rlist(v):
    return {"combine": cs(v[0]), "rules": [rule(r) for r in v[1]]}


def encode_all(o, r):
    a = o["args"]
    es = [{"toks": [tok(t) for t in e[0]], "expr": cs(render(e[0])), "combine": cs(e[1]), "rules": [rule(x) for x in e[2]]} for e in a["entries"]]
    out = []
    for p, ans in zip(a["paths"], r["v"] if r["k"] == "ok" else [[] for _ in a["paths"]]):
        out.append({"op": "select", "k": r["k"], "cat": a["name"], "entries": es, "path": [cs(x) for x in p],
                    "answers": [{"best": rlist(x["best"]), "cascaded": x["cascaded"], "resolved": [cs(y) for y in x["resolved"]],
                                 "defined": x["defined"], "wildcard": x["wildcard"], "type": x["type"], "body": rlist(x["body"])} for x in ans]})
    return out


def render(ts):
    import re
    out = ""
    for t in ts:
        if t[0] == "root":
            out += "$"
        elif t[0] == "field":
            out += "." + t[1] if re.fullmatch("[_A-Za-z][_A-Za-z0-9]*", t[1]) else "['%s']" % t[1].replace("\\", "\\\\").replace("'", "\\'")
        elif t[0] == "index":
            out += "[%s]" % t[1]
        else:
            out += ".*" if t[0] == "star" else "[*]"
    return out


def encode(o, r):
    a = o["args"]
    if o["op"] == "path.weight":
        v = r["v"] if r["k"] == "ok" else {"w": "", "t": 0, "m": False, "x": False}
        return {"op": "weight", "k": r["k"], "toks": [tok(t) for t in a["path"]], "path": [cs(x) for x in a["frags"]],
                "w": cs(v["w"]), "t": v["t"], "m": v["m"], "x": v["x"]}
    return encode_all(o, r)


def corrupt(e):
    if e["op"] == "weight":
        e["m"] = not e["m"]
        return e
    x = e["answers"][0]
    if x["best"]["rules"]:
        x["best"]["rules"] = [[cs("regex"), cs("!")]]
    else:
        x["cascaded"] = True
    return e


RULES = [["type"], ["min", 1], ["max", 3], ["minmax", 1, 2], ["equality"], ["regex", "x"], ["values"], ["integer"], ["notEmpty"]]


FRAGS = ["a", "A", "b", "0", "1", "00", "01", "10", "1st", "0a", "a0", "-1", "1.0", "0.5", "1e1", " 1", "1 ", "", "*", "[*]", "[0]", "[1]", "['a']", "$", "$.a", ".a", "a ", "aa", "1\u0661", "\u0661", "\u00e4",
         "18446744073709551615", "18446744073709551616", "99999999999999999999999", "zz"]
SEGS = [["root"], ["field", "a"], ["field", "0"], ["field", "*"], ["field", "[*]"], ["field", "1st"], ["field", "$"], ["field", ""], ["index", "0"], ["index", "1"], ["index", "10"],
        ["index", "18446744073709551615"], ["star"], ["staridx"]]


def rand_cat(rng, deep):
    name = rng.choice(["body", "body", "body", "header", "query", "metadata", "contents", "path", "status", "method"])
    segs = [["field", "a"], ["field", "b"], ["field", "a b"], ["index", "0"], ["index", "1"], ["star"], ["staridx"], ["field", "0"], ["field", "*"]]
    n = rng.randint(1, 6)
    es, seen = [], set()
    for k in range(n):
        if name in ("path", "status", "method"):
            ts = rng.choice([[], [["root"]]])
        elif name in ("header", "query", "metadata") and rng.random() < 0.7:
            ts = [["root"], rng.choice(segs)] + ([rng.choice([["index", "0"], ["staridx"], ["star"]])] if rng.random() < 0.3 else [])
        else:
            ts = [] if rng.random() < 0.05 else [["root"]] + [rng.choice(segs) for _ in range(rng.randint(0, 5 if deep else 3))]
        if render(ts) in seen:
            continue
        seen.add(render(ts))
        es.append([ts, rng.choice(["AND", "OR"]), [["regex", "r%d" % k]] + [rng.choice(RULES) for _ in range(rng.choice([0, 0, 1, 2]))]])
    paths = []
    for _ in range(6):
        base = rng.choice(es)[0]
        p = []
        for t in base:
            if t[0] == "root":
                p.append("$")
            elif t[0] in ("field", "index"):
                p.append(t[1] if rng.random() < 0.9 else rng.choice(["a", "b", "0"] + FRAGS))
            else:
                p.append(rng.choice(["a", "0", "1"] + FRAGS))
        p += [rng.choice(["a", "0", "a b"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        if rng.random() < 0.2 and p:
            p = p[:-1]
        paths.append(p)
    if name in ("header", "query"):
        paths += [["a"], ["b"]]
    paths.append(["$", "a"])
    orders = [list(range(len(es)))]
    for _ in range(3):
        q = list(range(len(es)))
        rng.shuffle(q)
        orders.append(q)
    return {"op": "path.select", "args": {"name": name, "entries": es, "orders": orders, "paths": paths}}


def run(c):
    exe = core.build()
    ops = []
    for ts in c.model("MC_Select", cfg="MC_Select.cfg"):
        es = [[[[t[0]] + [txt(x) for x in t[1:]] for t in e], "AND", [["regex", "r%d" % k]]] for k, e in enumerate(ts)]
        ops.append({"op": "path.select", "args": {"name": c.rng.choice(["body", "body", "metadata", "header", "query", "contents"]), "entries": es,
                    "orders": [[0, 1], [1, 0], [0, 1]], "paths": c.rng.sample(PATHS, c.n(6, 16))}})
    c.notes["rule_sets_enumerated_by_tlc"] = len(ops)
    if c.thorough:
        c.model("MC_Select", cfg="MC_Select_deep.cfg", timeout=3000)
    ops += [rand_cat(c.rng, k % 4 == 0) for k in range(c.n(2500, 25000))]
    c.conform(exe, "Tr_Select", ops, encode, corrupt)
    ops = []
    for _ in range(c.n(1500, 15000)):
        o = rand_cat(c.rng, True)["args"]
        ops.append({"op": "path.weight", "args": {"path": c.rng.choice(o["entries"])[0], "frags": c.rng.choice(o["paths"])}})
    # every kind of segment against every kind of name
    for t in SEGS:
        for f in FRAGS:
            ops.append({"op": "path.weight", "args": {"path": [["root"], t], "frags": ["$", f]}})
            ops.append({"op": "path.weight", "args": {"path": [["root"], t, ["field", "a"]], "frags": ["$", f, "a", f]}})
            ops.append({"op": "path.weight", "args": {"path": [t], "frags": [f]}})
    # very deep documents
    for d in (30, 60, 63, 64, 65, 70, 120):
        way = ["$"] + ["a"] * d
        ops.append({"op": "path.weight", "args": {"path": [["root"]] + [["field", "a"]] * d, "frags": way}})
        ops.append({"op": "path.weight", "args": {"path": [["root"]] + [["field", "a"]] * (d - 1) + [["star"]], "frags": way + ["b"]}})
        ops.append({"op": "path.weight", "args": {"path": [["root"]] + [["field", "a"]] * (d - 1) + [["field", "b"]], "frags": way}})
    c.conform(exe, "Tr_Select", ops, encode, corrupt)
    return c.finish()
