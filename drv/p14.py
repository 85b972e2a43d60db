"""P14: equality of models, their hashes and the keys made from these (Equal.tla)"""
import copy
import core
from core import cs, enc
from p03 import rpact, rinter, rstates, rmembers, rbody, rheaders, rquery, VALS, METHODS, PATHS, DESCS, CTHEAD, ct_of, MDS
from p05 import rule, category, GENS, BODY, NAMES, TEXTS


def o(x):
    return [] if x is None else [cs(x)]


def members(ms):
    return [[cs(k), enc(v)] for k, v in ms]


def state(s):
    return [cs(s[0]), members(s[1])]


def variants(vs):
    return [[cs(str(i)), cat(c), genmap(g)] for i, c, g in vs]


def definition(d):
    return [cs(d[0]), d[1], [["ref", cs(r[1])] if r[0] == "ref" else one(r) for r in d[2]], [gen(d[3])] if d[3] else [], cs(d[4])]


def one(r):
    t = r[0]
    if t in ("min", "max", "minmax"):
        return [t] + [cs(str(n)) for n in r[1:]]
    if t == "statusCode":
        return [t, ["codes", r[1]] if isinstance(r[1], list) else ["name", r[1]]]
    if t in ("eachKey", "eachValue"):
        return [t] + definition(r[1])
    if t == "arrayContains":
        return [t, variants(r[1])]
    return [t] + [cs(x) for x in r[1:]]


def gen(g):
    if g[0] == "ArrayContains":
        return [g[0], variants(g[1])]
    return [g[0]] + [x if isinstance(x, int) else o(x) for x in g[1:]]


def genmap(ms):
    return [[cs(p), gen(g)] for p, g in ms]


def cat(c):
    return [cs(c[0]), [[cs(e[0]), e[1], [one(r) for r in e[2]]] for e in c[1]]]


def rules(r):
    return [cat(c) for c in r]


def gens(g):
    return [[cs(c), genmap(m)] for c, m in g]


def ctype(c):
    return [cs(c[0]), cs(c[1]), o(c[2]), [[cs(k), cs(v)] for k, v in c[3]]]


def body(b):
    return ["present", b[1]] if b[0] == "present" else [b[0]]


def part(p):
    d = {"body": body(p["body"]), "rules": rules(p["rules"]), "gens": gens(p["gens"])}
    if "metadata" in p:
        d["metadata"] = members(p["metadata"])
    else:
        d["headers"] = [] if p["headers"] is None else [[[cs(k), [cs(x) for x in v]] for k, v in p["headers"]]]
    if "method" in p:
        d.update(method=cs(p["method"]), path=cs(p["path"]), query=[] if p["query"] is None else [[[cs(k), [o(x) for x in v]] for k, v in p["query"]]])
    if "status" in p:
        d["status"] = p["status"]
    return d


def inter(i):
    d = {"kind": i["kind"], "id": o(i["id"]), "description": cs(i["description"]), "states": [state(s) for s in i["states"]], "key": o(i.get("key")), "pending": i.get("pending", False)}
    for k in ("contents", "request", "response"):
        if k in i:
            d[k] = [part(x) for x in i[k]] if isinstance(i[k], list) else part(i[k])
    return d


def pact(p):
    return {"consumer": cs(p["consumer"]), "provider": cs(p["provider"]), "version": p["version"], "metadata": members(p["metadata"]),
            "plugins": [[cs(n), cs(v), members(m)] for n, v, m in p["plugins"]], "interactions": [inter(i) for i in p["interactions"]]}


ENC = {"path": cs, "state": state, "rule": one, "rulelist": lambda l: [l[0], [one(r) for r in l[1]]], "category": cat, "rules": rules, "generator": gen, "generators": gens, "ct": ctype, "body": body,
       **{k: part for k in ("contents", "request3", "response3", "request4", "response4")}, **{k: inter for k in ("http3", "msg3", "http4", "async4", "sync4", "v4")},
       **{k: pact for k in ("pact4", "pacthttp", "pactmessage", "boxed")}}


def encode(op, r):
    a, v = op["args"], r["v"]
    f = ENC[a["kind"]]
    e = {"kind": a["kind"], "k": r["k"], "a": f(a["a"]), "b": f(a["b"])}
    if r["k"] == "ok":
        seen = {}
        e.update({k: v[k] for k in ("eq", "ne", "rev", "self")}, hashed="ha" in v)
        if "ha" in v:
            # the other process has to see the same hashes
            was = op.get("was", {})
            for k in ("ha", "hb"):
                e[k] = [seen.setdefault(h, len(seen)) for h in v[k] + was.get(k, [])]
        if "ka" in v:
            for k in ("ka", "kb"):
                e[k] = [[o(x[0])] + [[cs(y)] if y is not None else [] for y in x[1:6]] + [x[6]] for x in v[k] + op.get("was", {}).get(k, [])]
    return e


def corrupt(e):
    if e["k"] != "ok":
        return None
    n = len(e["a"]) % 3 if not e["hashed"] else (len(str(e["a"])) % 4)
    if n == 0:
        e["eq"] = not e["eq"]
    elif n == 1:
        e["ne"] = not e["ne"]
    elif n == 2:
        e["self"] = False
    else:
        e["hb"] = e["hb"][:-1] + [77]
    return e


# ---------------------------------------------------------------- models, and others much like them
MORE = VALS + [0.0, -0.0, 1.0, "0", "1.0", [None], [[]], {"a": 0.0}, {"a": -0.0}, {"a": {"b": [2, 1]}}, True, "true", "-0.0", [-0.0, {"b": 0.0}]]
HEAD = sorted(NAMES)


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def vals(rng, most=4):
    return [[n, rng.choice(MORE)] for n in rng.sample(["id", "name", "a b", "", "\u00e9", "$", "x", "y", "z"], rng.randint(0, most))]


def somegen(rng, depth=1):
    if depth and rng.random() < 0.12:
        return ["ArrayContains", [[rng.choice([0, 1, 5]), category(rng, "body", 1, rng.randint(0, 2)), somegens(rng, "body", 0)] for _ in range(rng.randint(0, 2))]]
    return rng.choice(GENS + [["RandomInt", 0, 1], ["RandomInt", 1, 0], ["Date", None, "a"], ["Date", "a", None], ["Time", "a", None], ["DateTime", "a", None], ["ProviderState", "b", "STRING"], ["Uuid", "URN"], ["MockServerURL", "a", "b"], ["MockServerURL", "b", "a"],
                              ["RandomString", 8], ["RandomDecimal", 8], ["RandomHexadecimal", 5]])


def somegens(rng, c, depth=1):
    ps = [""] if c in ("path", "status", "method") else rng.sample(HEAD if c in ("header", "query") else sorted(BODY), rng.choice([0, 1, 2, 4]))
    return [[p, somegen(rng, depth)] for p in ps]


def somerule(rng, depth=2):
    r = rule(rng, depth)
    if r[0] in ("eachKey", "eachValue"):
        r[1][1] = rng.choice(["Unknown", "String", "Number", "Integer", "Decimal", "Boolean"])
        r[1][4] = rng.choice(["", "matching(type, 'a')"])
        if rng.random() < 0.3:
            r[1][2].append(["ref", rng.choice(["a", "b"])])
    return r


CATS = ["body", "header", "query", "path", "method", "status", "metadata"]
GCATS = ["body", "header", "query", "path", "method", "status", "metadata"]


def somecat(rng, name=None):
    name = name or rng.choice(CATS)
    c = category(rng, name, 2)
    for e in c[1]:
        e[2] = [somerule(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    if rng.random() < 0.1:
        c[1] = []
    return c


def somerules(rng):
    return [somecat(rng, n) for n in rng.sample(CATS, rng.choice([0, 1, 2, 3]))]


def somegenerators(rng):
    return [[n, somegens(rng, n)] for n in rng.sample(GCATS, rng.choice([0, 1, 2, 3]))]


def somebody(rng):
    return rbody(rng, rng.choice([None] + CTHEAD), True) if rng.random() < 0.7 else rng.choice([["missing"], ["empty"], ["null"], ["present", [], None, ""], ["present", [97], None, ""]])


def somepart(rng, kind):
    d = {"rules": somerules(rng) if rng.random() < 0.5 else [], "gens": somegenerators(rng) if rng.random() < 0.4 else [], "body": somebody(rng)}
    if kind == "contents":
        d["metadata"] = vals(rng)
        return d
    d["headers"] = rng.choice([None, [], rheaders(rng, True)[0], [[n, [rng.choice(["a", "b"])]] for n in rng.sample(["X", "x", "Y", "Content-Type", "z"], 3)]])
    if kind == "request":
        d.update(method=rng.choice(METHODS + ["get", "Get"]), path=rng.choice(PATHS), query=rng.choice([None, [], rquery(rng, False), [[n, rng.choice([["1"], [None], [""], [], ["1", "2"], ["2", "1"]])] for n in rng.sample(["a", "b", "c", ""], 3)]]))
    else:
        d["status"] = rng.choice([200, 200, 404, 0, 100, 503, 65535])
    return d


def somestates(rng):
    return [[rng.choice(DESCS), vals(rng)] for _ in range(rng.choice([0, 1, 1, 2]))]


def someinter(rng, kind):
    d = rinter(rng, "V4" if kind.endswith("4") else "V3", kind)
    d["states"] = somestates(rng)
    d["id"] = rng.choice([None, None, "a", "b"])
    for k in ("contents", "request", "response"):
        if k in d:
            f = "contents" if kind in ("msg3", "async4", "sync4") else k
            d[k] = [somepart(rng, f) for _ in range(rng.choice([0, 1, 2]))] if isinstance(d[k], list) else somepart(rng, f)
    return d


def somepact(rng, kind):
    kinds = {"http": ["http3"], "message": ["msg3"], "v4": ["http4", "async4", "sync4"]}[kind]
    p, _ = rpact(rng, "V4" if kind == "v4" else "V3")
    p["kind"] = kind
    if kind != "v4":
        p["plugins"] = []
        p["metadata"] = [[k, v] for k, v in rng.sample(MDS, rng.choice([0, 1, 2]))]
    p["interactions"] = [someinter(rng, rng.choice(kinds)) for _ in range(rng.choice([0, 1, 1, 2]))]
    return p


MAKE = {"path": lambda g: g.choice(sorted(BODY)[1:] + ["$['a']", "$.a", "a", "$.a[0]", "$.a['0']", "$.a[1]", "$.A"]), "state": lambda g: [g.choice(DESCS), vals(g)], "rule": somerule,
        "rulelist": lambda g: [g.choice(["AND", "OR"]), [somerule(g) for _ in range(g.randint(0, 3))]], "category": somecat, "rules": somerules, "generator": somegen, "generators": somegenerators,
        "ct": lambda g: ct_of(g.choice([c for c in CTHEAD if ct_of(c)])) if g.random() < 0.5 else [g.choice(["a", "b"]), g.choice(["a", "b"]), g.choice([None, "a"]), [[k, g.choice(["a", "b"])] for k in g.sample(["a", "b", "charset"], g.randint(0, 3))]], "body": somebody,
        "contents": lambda g: somepart(g, "contents"), "request3": lambda g: somepart(g, "request"), "request4": lambda g: somepart(g, "request"), "response3": lambda g: somepart(g, "response"), "response4": lambda g: somepart(g, "response"),
        **{k: (lambda g, k=k: someinter(g, k)) for k in ("http3", "msg3", "http4", "async4", "sync4")}, "v4": lambda g: someinter(g, g.choice(["http4", "async4", "sync4"])),
        "pact4": lambda g: somepact(g, "v4"), "pacthttp": lambda g: somepact(g, "http"), "pactmessage": lambda g: somepact(g, "message"), "boxed": lambda g: somepact(g, g.choice(["v4", "v4", "http", "message"]))}
MAPS = ("metadata", "headers", "query", "comments")


def reorder(rng, x, name=None):
    """the same content, put together in another order"""
    if isinstance(x, dict):
        return {k: reorder(rng, v, k) for k, v in x.items()}
    if not isinstance(x, list):
        return x
    if name in MAPS:
        return shuffled(rng, x)
    if name == "states":
        return [[s[0], shuffled(rng, s[1])] for s in x]
    if name == "rules":
        return shuffled(rng, [recat(rng, c) for c in x])
    if name == "gens":
        return shuffled(rng, [[c, regens(rng, m)] for c, m in x])
    if name == "plugins":
        return [p if isinstance(p[1], str) else [p[0], shuffled(rng, p[1])] for p in x]
    if name in ("interactions", "response"):
        return [reorder(rng, y) for y in x]
    return x


def rerule(rng, r):
    return [r[0], [[i, recat(rng, c), regens(rng, g)] for i, c, g in r[1]]] if r[0] == "arrayContains" else r


def recat(rng, c):
    return [c[0], shuffled(rng, [[e[0], e[1], [rerule(rng, r) for r in e[2]]] for e in c[1]])]


def regens(rng, m):
    return shuffled(rng, [[p, [g[0], [[i, recat(rng, c), regens(rng, y)] for i, c, y in g[1]]] if g[0] == "ArrayContains" else g] for p, g in m])


TOP = {"state": lambda g, x: [x[0], shuffled(g, x[1])], "rule": rerule, "rulelist": lambda g, x: [x[0], [rerule(g, r) for r in x[1]]], "category": recat, "rules": lambda g, x: shuffled(g, [recat(g, c) for c in x]),
       "generator": lambda g, x: regens(g, [["", x]])[0][1], "generators": lambda g, x: shuffled(g, [[c, regens(g, m)] for c, m in x]), "ct": lambda g, x: x[:3] + [shuffled(g, x[3])]}


# words that mean something: only others of their sort may take their place
WORDS = [["AND", "OR"], ["equality", "type", "number", "integer", "decimal", "boolean", "null", "values", "notEmpty", "semver"], ["regex", "include", "contentType", "datetime", "date", "time"], ["min", "max"], ["eachKey", "eachValue"],
         ["info", "success", "redirect", "clientError", "serverError", "nonError", "error"], ["Unknown", "String", "Number", "Integer", "Decimal", "Boolean"], ["RandomDecimal", "RandomHexadecimal", "RandomString"],
         ["Date", "Time", "DateTime"], ["simple", "lower-case-hyphenated", "upper-case-hyphenated", "URN"], ["STRING", "INTEGER", "DECIMAL", "FLOAT", "RAW", "BOOLEAN"]]
FIXED = ["minmax", "statusCode", "arrayContains", "ref", "Uuid", "RandomInt", "Regex", "RandomBoolean", "ProviderState", "MockServerURL", "ArrayContains", "present", "V1", "V1.1", "V2", "V3", "V4"] + CATS


def nudge(rng, v, name):
    """another value much like v, or nothing"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v - 1 if v > 0 else v + 1
    if isinstance(v, float):
        return rng.choice([-v, v + 1])
    if v is None:
        return "" if name in ("id", "key", "transport") else None
    if name == "body":
        for w in (["missing", "empty", "null"], ["TEXT", "BINARY", "DEFAULT", ""]):
            if v in w:
                return rng.choice([x for x in w if x != v])
        return None if v == "present" else v + "x"
    for w in WORDS:
        if v in w:
            return rng.choice([x for x in w if x != v])
    if v in FIXED:
        return None
    if v in NAMES or v in BODY:
        return rng.choice([p for p in list(NAMES) + list(BODY) if p != v and p])
    return rng.choice([v + "x", v.swapcase(), v[:-1], v + v])


def tweak(rng, kind, x):
    """a model much like x: one place in it is different, or as in another model"""
    x = copy.deepcopy(x)
    if kind == "path":
        return MAKE[kind](rng)
    if isinstance(x, str):
        return x
    for _ in range(60):
        y = MAKE[kind](rng)
        if rng.random() < 0.4:
            if isinstance(y, list) and rng.random() < 0.3:
                return y
            if not isinstance(y, dict):
                continue
            k = rng.choice([k for k in x if k != "kind" and k in y] or [None])
            if k is not None:
                if isinstance(x[k], dict) and isinstance(y[k], dict):
                    m = rng.choice([m for m in x[k] if m in y[k]] or [None])
                    if m is not None:
                        x[k][m] = y[k][m]
                        return x
                elif y.get("kind") == x.get("kind"):
                    x[k] = y[k]
                    return x
            continue
        up, at, name = None, None, None
        v = x
        while isinstance(v, (dict, list)) and v:
            if isinstance(at, str) and isinstance(v, list) and name in ("states", "rules", "gens", "headers", "query", "metadata", "interactions", "plugins") and rng.random() < 0.15:
                del v[rng.randrange(len(v))]
                return x
            up = v
            at = rng.choice([k for k in v if k != "kind" and (k != "version" or "interactions" not in v)]) if isinstance(v, dict) else rng.randrange(len(v))
            if isinstance(at, str):
                name = at
            v = up[at]
        if isinstance(v, (dict, list)) or up is None:
            continue
        w = nudge(rng, v, "body" if kind == "body" else name)
        if w is not None:
            up[at] = w
            return x
    return MAKE[kind](rng)


def run(c):
    exe = core.build()
    for cfg in ("http4", "async4", "sync4") + (("http3", "async4_deep", "sync4_deep") if c.thorough else ()):
        c.model("MC_Equal", cfg="MC_Equal_%s.cfg" % cfg, timeout=3000)
    rng = c.rng
    ops = []
    for kind in MAKE:
        for _ in range(c.n({"path": 30, "ct": 60, "body": 80}.get(kind, 220 if not kind.startswith("pact") else 120), 1500)):
            a = MAKE[kind](rng)
            m = rng.random()
            b = TOP.get(kind, reorder)(rng, copy.deepcopy(a)) if m < 0.3 else MAKE[kind](rng) if m < 0.45 else tweak(rng, kind, a)
            if kind == "boxed" and a["kind"] != b["kind"] and any(x["rules"] or x["gens"] for p in (a, b) for i in p["interactions"] for x in (i[k] for k in ("contents", "request", "response") if k in i) if isinstance(x, dict)):
                b = TOP.get(kind, reorder)(rng, copy.deepcopy(a))
            ops.append({"op": "equal.pair", "args": {"kind": kind, "a": a, "b": b}})
    # another process, in which hash maps have other orders
    for op, r in zip(ops, core.execute(exe, ops)):
        if r["k"] == "ok":
            op["was"] = {k: r["v"][k] for k in ("ha", "hb", "ka", "kb") if k in r["v"]}
    c.conform(exe, "Tr_Equal", ops, encode, corrupt)
    return c.finish()
