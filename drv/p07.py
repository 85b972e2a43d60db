"""P07: path expressions (Path.tla)"""
import core
from core import cs

ALPHABET = ["$", ".", "[", "]", "'", "\\", "*", "a", "Z", "1", "0", "-", "_", ":", " ", "\u00e9", "\u00b2", "\u2160", "\u0660", "~", "/", "\u4e2d", "\U0001f600", "#", "@", "\"", "\n"]


def txt(c):
    return "".join(map(chr, c))


def tok(t):
    return [t[0]] + [cs(x) for x in t[1:]]


def opt(x):
    return [0] if x is None else [1, cs(x)]


def state(o):
    return {"tokens": [tok(t) for t in o["tokens"]], "expr": cs(o["expr"]), "len": o["len"],
            "vec": [cs(x) for x in o["vec"]], "pointer": opt(o["pointer"]),
            "parent": [] if o["parent"] is None else [[tok(t) for t in o["parent"][0]], cs(o["parent"][1])],
            "first": opt(o["first"]), "last": opt(o["last"]), "root": o["flags"][0], "wildcard": o["flags"][1],
            "reparse": [0] if o["reparse"] is None else [1, [tok(t) for t in o["reparse"]]]}


def encode(o, r):
    a = o["args"]
    if o["op"] == "path.parse":
        return {"op": "parse", "s": cs(a["s"]), "k": r["k"], "obs": [state(r["v"])] if r["k"] == "ok" else []}
    st = a["start"]
    start = [st] if isinstance(st, str) else ["tokens", [tok(t) for t in st[1]]] if st[0] == "tokens" else [st[0], cs(st[1])]
    steps = []
    for s in a["steps"]:
        arg = s[1] if len(s) > 1 else 0
        steps.append([s[0], tok(arg) if isinstance(arg, list) else cs(arg) if isinstance(arg, str) else arg])
    return {"op": "build", "start": start, "steps": steps, "k": r["k"], "obs": [state(x) for x in r["v"]] if r["k"] == "ok" else []}


def corrupt(e):
    if e["k"] != "ok":
        return dict(e, k="ok" if e["k"] == "err" else "err", obs=[]) if e["op"] == "build" else dict(e, k="panic")
    o = e["obs"][-1]
    if not o["tokens"]:
        o["len"] = 7
    elif len(o["tokens"]) % 2:
        o["tokens"] = o["tokens"][:-1]
    else:
        o["expr"] = o["expr"] + [46]
    return e


def name(rng):
    if rng.random() < 0.4:
        return rng.choice(["a", "item1", "_x", "Abc", "a b", "user-id", "x.y", "*", "[*]", "0", "12", "007", "$", "$ref", "m~n", "a/b", "#text", "@attr", "ns:el", "Content-Type", "99999999999999999999999"])
    return "".join(rng.choice(ALPHABET) for _ in range(rng.randint(1, 5)))


def rand_build(rng):
    k = rng.random()
    if k < 0.5:
        start = "root"
    elif k < 0.55:
        start = "empty"
    elif k < 0.7:
        start = ["parse", rng.choice(["$", "$.a", "$['a']", "$.a[0]", "a.b", "$['a b'].*", "$.a[*]", "$[ '", "$['it\\'s']", "$.a.b.c"][:5] + ["$['a b'].*", "$.a[*]", "$['it\\'s']", "$.a.b.c", "$[007]"])]
    else:
        start = ["tokens", [["root"]] + [rtok(rng) for _ in range(rng.randint(0, 4))]]
    steps = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["field", "field", "index", "star", "staridx", "push", "join", "join", "join_index", "join_field", "push_path", "lower", "drop", "parent"])
        if op in ("field", "join", "join_field"):
            nm = name(rng)
            steps.append([op, nm])
        elif op in ("index", "join_index"):
            steps.append([op, rng.choice(["0", "1", "12", "4294967296", "18446744073709551615"])])
        elif op == "push":
            steps.append([op, rtok(rng)])
        elif op == "push_path":
            steps.append([op, rng.choice(["$.a.b", "$", "x", "$['q r'][3].*", "$[*]", "$['\\\\']"])])
        elif op == "drop":
            steps.append([op, rng.randint(0, 4)])
        elif op == "lower":
            steps.append([op]) if not any(len(s) > 1 and isinstance(s[1], str) and any(ord(c) > 127 for c in s[1]) for s in steps) else None
        else:
            steps.append([op])
    # lower() of non-ASCII letters is not modelled
    if any(s[0] == "lower" for s in steps):
        def ascii_(x):
            return all(ord(c) < 128 for c in str(x))
        if not ascii_(start if not isinstance(start, list) else core.json.dumps(start, ensure_ascii=False)) or not ascii_(core.json.dumps(steps, ensure_ascii=False)):
            steps = [s for s in steps if s[0] != "lower"]
    return {"op": "path.build", "args": {"start": start, "steps": steps}}


def rtok(rng):
    k = rng.random()
    if k < 0.6:
        return ["field", name(rng)]
    if k < 0.8:
        return ["index", str(rng.choice([0, 1, 7, 100]))]
    return [rng.choice(["star", "staridx"])]


def rand_expr(rng):
    k = rng.random()
    if k < 0.3:
        return "".join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 9)))
    if k < 0.5:
        return "$" + "".join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 12)))
    parts = ["$" if rng.random() < 0.8 else name(rng)]
    for _ in range(rng.randint(0, 5)):
        parts.append(rng.choice([".%s", "['%s']", "[%s]", ".*", "[*]", "[%d]" % rng.randint(0, 99), "[18446744073709551616]", "[00%d]" % rng.randint(0, 9)]))
        if "%s" in parts[-1]:
            parts[-1] = parts[-1] % name(rng)
    s = "".join(parts)
    if rng.random() < 0.3 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(["", rng.choice(ALPHABET)]) + s[i + 1:]
    return s


def run(c):
    exe = core.build()
    c.model("MC_Path", cfg="MC_Path_deep.cfg" if c.thorough else "MC_Path.cfg", timeout=3000)
    ops = []
    for v in c.model("MC_Path", cfg="MC_Path_vec.cfg"):
        if v["s"]:
            ops.append({"op": "path.parse", "args": {"s": txt(v["s"])}})
        else:
            ts = [[t[0]] + [txt(x) for x in t[1:]] for t in v["ts"]]
            ops.append({"op": "path.build", "args": {"start": "root", "steps": [["push", t] for t in ts[1:]]}})
    c.notes["vectors_enumerated_by_tlc"] = len(ops)
    ops += [{"op": "path.parse", "args": {"s": rand_expr(c.rng)}} for _ in range(c.n(8000, 80000))]
    ops += [rand_build(c.rng) for _ in range(c.n(4000, 40000))]
    c.conform(exe, "Tr_Path", ops, encode, corrupt)
    return c.finish()
