"""P11: generators (Gen.tla, Regex.tla)"""
import json
from urllib.parse import parse_qsl
import core
from core import cs, enc
from p10 import val, VALUES, DTS
from rulesabs import txt, tok, dec_json


def opt(x, f):
    return [] if x is None else [f(x)]


def enc_gen(g, more=None):
    """more: the tree of a regular expression, or the path of a mock server URL"""
    t, a = g[0], g[1:]
    if t == "Uuid":
        return [t, opt(a[0], lambda x: x)]
    if t == "Regex":
        return [t, cs(a[0]), more or []]
    if t in ("Date", "Time", "DateTime"):
        return [t, opt(a[0], cs), opt(a[1], cs)]
    if t == "ProviderState":
        return [t, cs(a[0]), opt(a[1], lambda x: x)]
    if t == "MockServerURL":
        return [t, cs(a[0]), cs(a[1]), more or []]
    if t == "ArrayContains":
        return [t, [[i, [[x[3], enc_gen(x[1]), cs(x[0])] for x in gs]] for i, _, gs in a[0]]]
    return list(g)


def enc_ctx(ctx):
    def vals(d):
        return [[cs(k), val(v)] for k, v in d.items() if k not in ("providerState", "mockServer")]
    mock = ctx.get("mockServer")
    return {"values": vals(ctx), "nested": [vals(ctx["providerState"])] if isinstance(ctx.get("providerState"), dict) else [],
            "mock": [] if not mock else [cs(mock.get("url") or mock.get("href"))]}


def res(r, f):
    return [0] if r[0] == 0 else [1, f(r[1])]


def dump_gen(g):
    """a generator the executor dumped"""
    return enc_gen(g)


def dump_gens(gs):
    return [[c, [[[tok(t) for t in e[2]], enc_gen(e[1]), cs(e[0])] for e in es]] for c, es in gs]


SINGLE = ("path", "method", "status")


def encode(o, r):
    a, v, k = o["args"], r["v"], r["k"]
    if o["op"] == "gen.value":
        e = {"op": "value", "k": k, "gen": enc_gen(a["gen"], a.get("more")), "ctx": enc_ctx(a["ctx"]), "src": enc(a["src"]),
             "head": cs(a.get("head", "")), "tail": cs(a.get("tail", "")), "texts": [], "lists": [], "jsons": [], "nums": [], "modes": []}
        if k == "ok":
            e["texts"] = [res(x, cs) for x in v["texts"]]
            e["lists"] = [res(x, lambda l: [cs(s) for s in l]) for x in v["lists"]]
            e["jsons"] = [res(x, enc) for x in v["jsons"]]
            e["nums"] = [res(x, lambda n: n) for x in v["nums"]]
            e["modes"] = v["modes"]
        return e
    if o["op"] in ("gen.json", "gen.form"):
        e = {"op": o["op"][4:], "k": k, "gens": [[g[3], enc_gen(g[1], g[2]), []] for g in a["abs"]], "mode": a["mode"], "ctx": enc_ctx(a["ctx"])}
        if o["op"] == "gen.json":
            e["doc"] = enc(a["doc"])
            e["out"] = enc(v) if k == "ok" else ["n"]
        else:
            e["params"] = [[cs(x), cs(y)] for x, y in a["params"]]
            e["out"] = [[cs(x), cs(y)] for x, y in parse_qsl(v, keep_blank_values=True)] if k == "ok" else []
        return e
    if o["op"] == "gen.write":
        e = {"op": "write", "k": k, "version": a["version"], "json": ["n"], "back": [], "each": [], "again": [],
             "gens": [[c, sorted([[x[3], enc_gen(x[1]), cs(x[0])] for x in es], key=lambda x: x[2])] for c, es in sorted(a["abs"])]}
        if k == "ok":
            e["json"] = enc(v["json"])
            e["back"] = dump_gens(v["back"])
            e["each"] = [enc_gen(g) for g in v["each"]]
            e["again"] = [enc_gen(g) if g else [] for g in v["again"]]
        return e
    j = a["json"].get("generators") if isinstance(a["json"], dict) else None
    return {"op": "read", "k": k, "json": enc(j), "gens": dump_gens(v) if k == "ok" else []}


def corrupt(e):
    if e["op"] == "value":
        if e["gen"][0] == "ProviderState" or not e["texts"]:
            e["modes"] = [True, True]
        elif e["texts"][0] == [0]:
            e["texts"][0] = [1, cs("\u0000 not this")]
        else:
            e["texts"][0] = [1, e["texts"][0][1] + cs("\u0000")] if e["gen"][0] not in ("Date", "Time", "DateTime") else [0]
    elif e["op"] == "json":
        e["out"] = ["a", [e["out"], e["doc"]]]
    elif e["op"] == "form":
        e["out"] = e["out"] + [[[120], [121]]]
    elif e["op"] == "write":
        e["json"] = ["a", [e["json"]]]
    else:
        e["k"] = "panic"
    return e


# ---------------------------------------------------------------- random generators
SPECIAL = "\\^$.|?*+()[]{}/-"


def esc(c):
    return "\\" + c if c in SPECIAL else c


def re_text(t):
    """ReText of Regex.tla (the trace specification checks that it is)"""
    def wrap(x):
        return "(%s)" % re_text(x) if x[0] in ("cat", "alt", "rep") else re_text(x)
    k = t[0]
    if k == "c":
        return esc(chr(t[1]))
    if k == "set":
        return "[%s]" % "".join(esc(chr(lo)) + ("" if lo == hi else "-" + esc(chr(hi))) for lo, hi in t[1])
    if k in "dw":
        return "\\" + k
    if k == "cat":
        return "".join(wrap(x) if x[0] in ("alt", "cat") else re_text(x) for x in t[1])
    if k == "alt":
        return "|".join(re_text(x) for x in t[1])
    lo, hi = t[2], t[3]
    return wrap(t[1]) + ("*" if (lo, hi) == (0, -1) else "+" if (lo, hi) == (1, -1) else "?" if (lo, hi) == (0, 1) else
                         "{%d,}" % lo if hi == -1 else "{%d}" % lo if lo == hi else "{%d,%d}" % (lo, hi))


def rregex(rng, depth=3):
    k = rng.random()
    if depth == 0 or k < 0.25:
        j = rng.random()
        if j < 0.5:
            return ["c", ord(rng.choice("abcXYZ019 _-./\\^$|?*+()[]{}\u00e9"))]
        if j < 0.65:
            return ["d"]
        if j < 0.75:
            return ["w"]
        return ["set", [rng.choice([[97, 122], [65, 90], [48, 57], [45, 45], [36, 36], [94, 94], [93, 93], [65, 70]]) for _ in range(rng.randint(1, 3))]]
    if k < 0.6:
        return ["cat", [rregex(rng, depth - 1) for _ in range(rng.randint(2, 4))]]
    if k < 0.75:
        return ["alt", [rregex(rng, depth - 1) for _ in range(rng.randint(2, 3))]]
    x = rregex(rng, depth - 1)
    while x[0] == "rep":
        x = rregex(rng, depth - 1)
    return ["rep", x] + list(rng.choice([(0, -1), (1, -1), (0, 1), (2, 2), (1, 3), (2, -1), (0, 4), (3, 3)]))


def simple(rng):
    """(generator, more) without a context"""
    k = rng.randint(0, 8)
    if k == 0:
        return ["RandomInt"] + rng.choice([[0, 10], [5, 5], [-3, 3], [-2147483648, 2147483647], [2147483647, 2147483647], [9, 2], [1, 0], [60000, 70000],
                                           [-2147483648, -2147483648], [65535, 65536], [-10, -1], [0, 65535], [2147483646, 2147483647]]), None
    if k == 1:
        return ["Uuid", rng.choice([None, "simple", "lower-case-hyphenated", "upper-case-hyphenated", "URN"])], None
    if k in (2, 3, 4):
        return [["RandomDecimal", "RandomHexadecimal", "RandomString"][k - 2], rng.choice([0, 1, 2, 3, 4, 5, 8, 10, 15, 20, 33])], None
    if k == 5:
        t = rregex(rng)
        return ["Regex", re_text(t)], t
    if k == 6:
        return [rng.choice(["Date", "Time", "DateTime"]), None, None], None
    if k == 7:
        return ["RandomBoolean"], None
    return ["RandomInt", 1, 9], None


SCALARS = [v for v in VALUES if not isinstance(v, (list, dict))]
NAMES = ["id", "a", "user.name"]


def rctx(rng):
    ctx = {n: rng.choice(SCALARS) for n in NAMES if rng.random() < 0.7}
    if rng.random() < 0.3:
        ctx["providerState"] = {n: rng.choice(SCALARS) for n in NAMES if rng.random() < 0.7}
    if rng.random() < 0.7:
        ctx["mockServer"] = {rng.choice(["url", "href"]): rng.choice(["http://127.0.0.1:8080", "https://mock/base", "http://h:1/$0\\1"])}
    return ctx


def contextual(rng):
    if rng.random() < 0.6:
        return ["ProviderState", rng.choice(["id", "a", "${id}", "/x/${a}/${id}", "${gone}", "gone", "user.name", "$id", "${", "${user.name}"]), rng.choice(DTS)], None
    p = rng.choice(["/orders/5", "/", "", "/a.b?c=d", "/\u00e9"])
    ex = rng.choice(["http://localhost:1234", "http://x", ""]) + p
    k = rng.random()
    if k < 0.6:
        return ["MockServerURL", ex, ".*(%s)$" % "".join(esc(c) for c in p)], [2, cs(p)]
    if k < 0.7:
        return ["MockServerURL", ex, ".*(zzz)$"], [1]
    if k < 0.8:
        return ["MockServerURL", ex, ".*"], [0]
    if k < 0.9:
        return ["MockServerURL", ex, "^.*$|(x)"], [0]
    return ["MockServerURL", "qq" + p, "^[a-z]+(%s)" % "".join(esc(c) for c in p)], [2, cs(p)]


def rgen(rng):
    return simple(rng) if rng.random() < 0.7 else contextual(rng)


KEYS = ["a", "b", "a/b", "~1", "~", "", "0", "a.b", "\u00e9", "v", "*"]


def rdoc(rng, depth=3):
    k = rng.random()
    if depth == 0 or k < 0.3:
        return rng.choice([None, True, 0, 7, -3, 1.5, "", "x", "12", 2.25, 200])
    if k < 0.6:
        return [rdoc(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {x: rdoc(rng, depth - 1) for x in rng.sample(KEYS, rng.randint(0, 4))}


def rpath(rng, doc):
    """a path into the document, mostly of places that are there"""
    ts = [["root"]]
    while rng.random() < 0.8:
        if isinstance(doc, dict) and doc and rng.random() < 0.9:
            k = rng.choice(sorted(doc))
            if k != "" and k != "*" and rng.random() < 0.7:
                ts.append(["field", k])
            else:
                ts.append(["star"])
            doc = doc[k]
        elif isinstance(doc, list) and doc and rng.random() < 0.9:
            i = rng.randrange(len(doc))
            ts.append(["index", str(i)] if rng.random() < 0.6 else ["staridx"])
            doc = doc[i]
        else:
            ts.append(rng.choice([["field", "a"], ["field", "0"], ["index", "0"], ["index", "9"], ["star"], ["staridx"]]))
            break
    return ts


def path_text(ts):
    """the expression of a path"""
    s = ""
    for t in ts:
        if t[0] == "root":
            s += "$"
        elif t[0] == "field":
            n = t[1]
            if n and all(c.isalnum() and ord(c) < 128 or c in "_-" for c in n) and n[0] not in "-":
                s += "." + n
            else:
                s += "['%s']" % n
        elif t[0] == "index":
            s += "[%s]" % t[1]
        else:
            s += ".*" if t[0] == "star" else "[*]"
    return s


def entry(ts, g, more=None):
    """[expression, generator, more, tokens]"""
    return [path_text(ts), g, more, [tok(t) for t in ts]]


def rvariants(rng):
    out = []
    for i in rng.sample(range(3), rng.randint(1, 3)):
        gs = []
        for f in rng.sample(["a", "b", "v"], rng.randint(0, 2)):
            g = rng.choice([["RandomInt", 1000, 1009], ["RandomBoolean"], ["Uuid", "simple"], ["RandomString", 4]])
            gs.append(entry([["root"], ["field", f]], g))
        out.append([i, ["body", []], gs])
    return out


def strip(g):
    """the form the executor reads"""
    if g[0] == "ArrayContains":
        return [g[0], [[i, c, [[e[0], e[1]] for e in gs]] for i, c, gs in g[1]]]
    return g


def jop(doc, entries, mode, ctx, op="gen.json"):
    a = {"gens": [[e[0], strip(e[1])] for e in entries], "abs": entries, "mode": mode, "ctx": ctx}
    a["doc" if op == "gen.json" else "params"] = doc
    return {"op": op, "args": a}


FORMATS = [None, "yyyy-MM-dd", "HH:mm", "d/M/yy", "yyyy-MM-dd'T'HH:mm:ss", ""]
TEXTS = ["id", "${a}", "", "a b", "\u00e9", "x\"y"]


def wgen(rng):
    """any generator, to be written"""
    k = rng.randint(0, 6)
    if k <= 2:
        return simple(rng)[0]
    if k == 3:
        return [rng.choice(["Date", "Time", "DateTime"]), rng.choice(FORMATS), rng.choice([None, "now + 1 day", "today", ""])]
    if k == 4:
        return ["ProviderState", rng.choice(TEXTS), rng.choice(DTS)]
    if k == 5:
        return ["MockServerURL", rng.choice(TEXTS), rng.choice([".*(/x)$", "", "("])]
    return ["ArrayContains", rvariants(rng)]


WFIELDS = ["a", "b", "x y", "A-B", "a.b", "tags[]", "\u00e9", "$", "0"]


def wgens(rng):
    out = []
    for c in sorted(rng.sample(["method", "path", "header", "query", "body", "status", "metadata"], rng.randint(0, 4))):
        es = []
        if c in SINGLE:
            es.append(["", wgen(rng), None, []])
        elif c in ("header", "query"):
            for f in rng.sample(WFIELDS, rng.randint(0, 3)):
                es.append(entry([["root"], ["field", f]], wgen(rng)))
        else:
            seen = set()
            for _ in range(rng.randint(0, 3)):
                ts = [["root"]] + [rng.choice([["field", rng.choice(WFIELDS)], ["star"], ["staridx"], ["index", "3"], ["field", "b"]]) for _ in range(rng.randint(0, 3))]
                if path_text(ts) not in seen:
                    seen.add(path_text(ts))
                    es.append(entry(ts, wgen(rng)))
        if es:
            out.append([c, es])
    return out


RTYPES = ["RandomInt", "Uuid", "RandomDecimal", "RandomHexadecimal", "RandomString", "Regex", "Date", "Time", "DateTime", "RandomBoolean", "ProviderState", "MockServerURL",
          "ArrayContains", "randomint", "Fred", "", None, 5]
RVALS = {"min": [0, 5, -1, 2147483648, -2147483649, 99999999999, 1.5, "3", None, [], 2147483647], "max": [0, 10, -1, 2147483648, "x", 3.0, {}],
         "digits": [0, 3, 65535, 65536, -1, "4", None, 2.5, 65546], "size": [0, 3, 65535, 70000, -2, "4"], "regex": ["\\d+", "", 5, None, "("],
         "format": ["simple", "URN", "urn", "upper-case-hyphenated", "yyyy", "", "lower-case-hyphenated"], "expression": ["id", "${a}", "", "+ 1 day"],
         "dataType": ["STRING", "integer", "RAW", "Boolean", "FOO", "", 5, None], "example": ["http://x/y", "", "z"]}


def robj(rng):
    t = rng.choice(RTYPES)
    o = {"type": t}
    if rng.random() < 0.05:
        del o["type"]
    for k in rng.sample(sorted(RVALS), rng.randint(0, 4)):
        o[k] = rng.choice(RVALS[k])
    want = {"RandomInt": ("min", "max"), "Uuid": ("format",), "RandomDecimal": ("digits",), "RandomHexadecimal": ("digits",), "RandomString": ("size",),
            "Regex": ("regex",), "ProviderState": ("expression", "dataType"), "MockServerURL": ("example", "regex")}.get(t, ("format", "expression"))
    for k in want:
        if rng.random() < 0.7:
            o[k] = rng.choice(RVALS[k])
    return o


def rread(rng):
    j = {}
    for c in rng.sample(["method", "path", "header", "query", "body", "status", "metadata", "headers", "Body", "PATH", "content", "foo"], rng.randint(0, 4)):
        k = rng.random()
        if k < 0.07:
            j[c] = rng.choice([None, [], "x", 5])
        elif c.lower() in SINGLE:
            j[c] = robj(rng)
        else:
            j[c] = {p: (robj(rng) if rng.random() < 0.95 else rng.choice([None, [], "x", 1]))
                    for p in rng.sample(["$.a", "$", "a", "$['a']", "$.a[*].b", "x y", "$.a.b", "$[0]", "$.*", "", "A-B"] + (["$.", "$[", "a["] if rng.random() < 0.1 else []), rng.randint(0, 3))}
    return j


def run(c):
    exe = core.build()
    rng = c.rng
    ops = []
    # the regular expressions of the model
    vecs = c.model("MC_Gen", cfg="MC_Gen_re.cfg")
    c.notes["regular_expressions_enumerated_by_tlc"] = len(vecs)
    for v in (vecs if c.thorough else rng.sample(vecs, 2500)):
        head, tail = rng.choice(["", "^"]), rng.choice(["", "$"])
        ops.append({"op": "gen.value", "args": {"gen": ["Regex", head + txt(v["text"]) + tail], "more": v["re"], "head": head, "tail": tail, "ctx": {}, "src": "x", "n": 3}})
    # every generator in place of every kind of value
    for _ in range(c.n(5000, 60000)):
        g, more = rgen(rng)
        a = {"gen": g, "more": more, "ctx": rctx(rng), "src": rng.choice(["x", "12", 5, 1.5, None, True, [1], {"a": 1}, -7, ""]), "n": 3}
        if g[0] == "Regex":
            a["head"], a["tail"] = rng.choice(["", "^"]), rng.choice(["", "$"])
            g[1] = a["head"] + g[1] + a["tail"]
        ops.append({"op": "gen.value", "args": a})
    for n in range(0, 40):
        for t in ("RandomDecimal", "RandomHexadecimal", "RandomString"):
            for src in ("x", 5, None):
                ops.append({"op": "gen.value", "args": {"gen": [t, n], "ctx": {}, "src": src, "n": 12}})
    # the documents of the model
    vecs = c.model("MC_Gen", cfg="MC_Gen_doc.cfg")
    c.notes["documents_with_generators_enumerated_by_tlc"] = len(vecs)
    ctx = {"id": 42}
    for v in (rng.sample(vecs, min(len(vecs), c.n(4000, 60000)))):
        es = []
        for ts, g in ((x[0], x[1]) for x in v["gens"]):
            toks = [[t[0]] + [txt(y) for y in t[1:]] for t in ts]
            g = ["ProviderState", txt(g[1]), None] if g[0] == "ProviderState" else list(g)
            es.append(entry(toks, g))
        ops.append(jop(dec_json(v["doc"]), es, rng.choice(["Consumer", "Provider"]), ctx))
    # random documents
    for _ in range(c.n(4000, 60000)):
        doc = rdoc(rng)
        es = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            ts = rpath(rng, doc)
            if any(path_text(ts) == e[0] for e in es):
                continue
            g, more = rgen(rng)
            es.append(entry(ts, g, more))
        ops.append(jop(doc, es, rng.choice(["Consumer", "Provider"]), rctx(rng)))
    for _ in range(c.n(600, 6000)):     # variants of arrays
        arr = [rng.choice([{"v": rng.randint(0, 3), "a": rng.choice([1, "x", None]), "b": [1]}, {"a": 1}, 5, {"v": 1}, {"v": "1"}]) for _ in range(rng.randint(0, 4))]
        doc, ts = rng.choice([(arr, [["root"]]), ({"a": arr, "b": 1}, [["root"], ["field", "a"]]), ({"x": arr, "y": arr}, [["root"], ["star"]]), ({"a": 5}, [["root"], ["field", "a"]])])
        ops.append(jop(doc, [entry(ts, ["ArrayContains", rvariants(rng)])], rng.choice(["Consumer", "Provider"]), {}))
    # forms
    for _ in range(c.n(2500, 30000)):
        names = [rng.choice(["a", "b", "a b", "\u00e9", "", "a.b", "0", "c[]"]) for _ in range(rng.randint(0, 5))]
        params = [[n, rng.choice(["", "1", "x y", "a&b=c", "\u00e9"])] for n in names]
        es = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ts = [["root"], ["field", rng.choice([n for n in names if n] + ["a", "z"])]] + rng.choice([[], [], [["index", str(rng.randint(0, 2))]], [["staridx"]]])
            if any(path_text(ts) == e[0] for e in es):
                continue
            g, more = rgen(rng)
            es.append(entry(ts, g, more))
        # two generators for the same value: which is used is not specified
        if len({tuple(map(str, e[3][:2])) for e in es}) == len(es):
            ops.append(jop(params, es, rng.choice(["Consumer", "Provider"]), rctx(rng), "gen.form"))
    # JSON
    for _ in range(c.n(3000, 40000)):
        gs = wgens(rng)
        ops.append({"op": "gen.write", "args": {"version": rng.choice(["V1", "V1.1", "V2", "V3", "V3", "V4", "V4", "V4"]), "abs": gs,
                                                "gens": [[cat, [[e[0], strip(e[1])] for e in es]] for cat, es in gs]}})
    for _ in range(c.n(4000, 60000)):
        j = rread(rng)
        ops.append({"op": "gen.read", "args": {"json": {"generators": j} if rng.random() < 0.97 else rng.choice([{}, [], None, {"generators": [1]}, {"generators": None}])}})
    c.conform(exe, "Tr_Gen", ops, encode, corrupt)
    return c.finish(assumptions=["Two generators for overlapping places: the order they are used in is not specified",
                                 "Dates and times with a pattern are P13's"])
