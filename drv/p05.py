"""P05: matching rules as JSON (Rules.tla)"""
import core
from core import enc
from rulesabs import enc_rule, enc_category, dec_category, gen_json

FACTS = ["values", "type", "length", "cascade", "gens"]


def cats(v):
    return [enc_category(c) for c in v]


def encode(o, r):
    a, op, ok, v = o["args"], o["op"], r["k"] == "ok", r["v"]
    if op == "rules.read-one":
        return {"op": "rule.read", "json": enc(a["json"]), "k": r["k"], "rule": enc_rule(v) if ok else []}
    if op == "rules.write-one":
        e = {"op": "rule.write", "rule": enc_rule(o["tok"]), "k": r["k"], "json": ["n"], "back": [], "again": [], "facts": []}
        if ok:
            e["json"] = enc(v["json"])
            for k in ("back", "again"):
                e[k] = [enc_rule(v[k])] if v[k] is not None else []
            e["facts"] = dict(zip(FACTS, v["facts"]), single=enc_rule(v["single"]))
        return e
    if op == "rules.read":
        return {"op": "rules.read", "json": enc(a["json"]), "k": r["k"], "rules": cats(v) if ok else []}
    if op == "rules.write":
        return {"op": "rules.write", "version": a["version"], "rules": cats(o["tok"]), "k": r["k"], "json": enc(v["json"]) if ok else ["n"],
                "back": [cats(v["back"])] if ok and v["back"] is not None else []}
    return {"op": "rules.add", "rules": cats(o["tok"]), "other": cats(o["tok2"]), "k": r["k"], "out": cats(v) if ok else []}


def corrupt(e):
    if e["op"] in ("rule.read", "rules.read"):
        e["k"] = "panic"      # anything else may be unspecified
    elif e["op"] == "rule.write":
        e["facts"]["cascade"] = not e["facts"]["cascade"]
    elif e["op"] == "rules.write":
        e["back"] = []
    else:
        e["out"] = e["out"][:-1] if e["out"] else [["body", [[[], "AND", [["type"]], []]]]]
    return e


# ---------------- tokens of the few paths used here (P07 judges the parser) ----------------
R = ["root"]


def F(n):
    return ["field", n]


BODY = {"": [], "$": [R], "$.a": [R, F("a")], "$['x y'][0].*": [R, F("x y"), ["index", "0"], ["star"]], "$.c[*]": [R, F("c"), ["staridx"]],
        "b.d": [R, F("b"), F("d")], "$['$'].e": [R, F("$"), F("e")], "$.body.a": [R, F("body"), F("a")], "$['$']": [R, F("$")], "$.items[12].id": [R, F("items"), ["index", "12"], F("id")],
        "$['\u00e9']": [R, F("\u00e9")], "$['it\\'s']": [R, F("it's")], "$.*": [R, ["star"]], "$.a-b_c": [R, F("a-b_c")], "$['matchers']": [R, F("matchers")], "$.headers.X": [R, F("headers"), F("X")]}
NAMES = {"$.Accept": "Accept", "$['X-A']": "X-A", "$['q[0]']": "q[0]", "$.matchers": "matchers", "$['$filter']": "$filter", "$['it\\'s']": "it's", "$['a b']": "a b", "$.combine": "combine",
         "$['*']": "*", "$['a.b']": "a.b", "$['$.x']": "$.x", "$.q": "q", "$.path": "path", "$['\u00e9']": "\u00e9", "$['0']": "0", "Accept": "Accept", "X-A": "X-A"}
TEXTS = ["", "a", "\\d+", "x\"y\\", "yyyy-MM-dd", "HH:mm:ss'Z'", "application/json", "\u00e9\u4e2d", "a/b", "^[a-z]*$", "null", "${a}", "line\nbreak"]
SIZES = [0, 1, 2, 10, 65535, 65536, 999999999, 2147483648, 9007199254740993, 18446744073709551615]
PLAIN = ["equality", "type", "number", "integer", "decimal", "boolean", "null", "values", "notEmpty", "semver"]
STATUS = ["info", "success", "redirect", "clientError", "serverError", "nonError", "error"]
GENS = [["Uuid", None], ["Uuid", "simple"], ["RandomInt", -5, 10], ["RandomInt", 0, 2147483647], ["RandomString", 20], ["RandomDecimal", 5], ["RandomHexadecimal", 8], ["Regex", "\\d{3}"], ["RandomBoolean"],
        ["Date", "yyyy", None], ["Date", None, None], ["DateTime", "yyyy-MM-dd'T'HH:mm", "now + 1 day"], ["Time", None, "@ 2 o'clock"], ["ProviderState", "${a}", None], ["ProviderState", "b", "INTEGER"],
        ["MockServerURL", "http://x/a", ".*(/a)$"]]


def rule(rng, depth=2, toks=False):
    k = rng.random()
    if k < 0.25:
        return [rng.choice(PLAIN)]
    if k < 0.5:
        return [rng.choice(["regex", "include", "contentType", "datetime", "date", "time"]), rng.choice(TEXTS)]
    if k < 0.65:
        return [rng.choice(["min", "max"]), rng.choice(SIZES)]
    if k < 0.72:
        return ["minmax", rng.choice(SIZES), rng.choice(SIZES)]
    if k < 0.78 or depth == 0:
        return ["statusCode", rng.choice(STATUS) if rng.random() < 0.5 else [rng.choice([0, 100, 200, 404, 599, 65535]) for _ in range(rng.randint(0, 3))]]
    if k < 0.9:
        return [rng.choice(["eachKey", "eachValue"]),
                [rng.choice(TEXTS), "Unknown", [rule(rng, depth - 1) for _ in range(rng.randint(0, 3))], rng.choice(GENS) if rng.random() < 0.4 else None, ""]]
    return ["arrayContains", [[rng.choice([0, 1, 5, 18446744073709551615]), category(rng, "body", depth - 1, rng.randint(0, 3)),
                              [[p, rng.choice(GENS)] for p in rng.sample(sorted(BODY), rng.choice([0, 0, 1, 2]))]] for _ in range(rng.randint(0, 3))]]


def category(rng, name, depth=2, n=None):
    if name in ("header", "query"):
        ps = rng.sample(sorted(NAMES), n or rng.randint(1, 3))
        seen, out = set(), []
        for p in ps:       # one entry for each name
            if NAMES[p] not in seen:
                seen.add(NAMES[p])
                out.append(p)
        ps = out
    elif name in ("path", "method", "status"):
        ps = [""]
    else:
        ps = rng.sample(sorted(BODY), rng.randint(1, 4) if n is None else n)
    es = []
    for p in ps:
        l = rng.choice(["AND", "OR"])
        es.append([p, l, [rule(rng, depth) for _ in range(rng.choice([1, 1, 2, 3]))]])
    return [name, es]


def with_tokens(c):
    """as the executor reports it: sorted by path, with tokens"""
    return [c[0], sorted([e[0], e[1], [rule_tokens(r) for r in e[2]],
                          [R, F(NAMES[e[0]])] if c[0] in ("header", "query") else BODY[e[0]]] for e in c[1])]


def rule_tokens(r):
    if r[0] in ("eachKey", "eachValue"):
        d = r[1]
        return [r[0], [d[0], d[1], [rule_tokens(x) for x in d[2]], d[3], d[4]]]
    if r[0] == "arrayContains":
        return [r[0], [[i, with_tokens(c), sorted(g + [BODY[g[0]]] for g in gs)] for i, c, gs in r[1]]]
    return r


TYPES = PLAIN + ["real", "not-empty", "regex", "include", "contentType", "content-type", "min", "min-type", "max", "max-type", "min-max-type", "timestamp", "datetime", "date", "time",
                 "statusCode", "status-code", "eachKey", "each-key", "eachValue", "each-value", "arrayContains", "array-contains", "type", "type", "Type", "unknown", "", "EachKey"]
VALUES = ["", "a", "5", "007", "-1", "1.5", "x", 0, 1, 5, -1, 1.5, 2147483648, True, None, [], {}, [1], {"a": 1}, "yyyy", "99999999999999999999", 300, "\u0665"]
ATTRS = ["regex", "value", "min", "max", "format", "timestamp", "datetime", "date", "time", "status", "rules", "generator", "variants", "combine", "index"]
USUAL = {"regex": ["regex"], "include": ["value"], "contentType": ["value"], "content-type": ["value"], "min": ["min"], "min-type": ["min"], "max": ["max"], "max-type": ["max"],
         "min-max-type": ["min", "max"], "type": ["min", "max"], "timestamp": ["format", "timestamp"], "datetime": ["format", "datetime"], "date": ["format", "date"], "time": ["format", "time"],
         "statusCode": ["status"], "status-code": ["status"], "eachKey": ["value", "rules", "generator"], "each-key": ["value", "rules", "generator"],
         "eachValue": ["value", "rules", "generator"], "each-value": ["rules"], "arrayContains": ["variants"], "array-contains": ["variants"]}


def attr(rng, k, depth):
    if k == "status" and rng.random() < 0.9:
        return rng.choice(STATUS + ["Success", ""]) if rng.random() < 0.5 else [rng.choice([200, "404", 65535, 65536, -1, 70000, "x", 200.0, None, "65536", 100]) for _ in range(rng.choice([0, 1, 1, 2]))]
    if k == "rules" and rng.random() < 0.9:
        return [rule_json(rng, depth - 1) for _ in range(rng.randint(0, 2))] if depth > 0 else []
    if k == "generator":
        return gen_json(rng.choice(GENS)) if rng.random() < 0.8 else rng.choice([None, [], "Uuid", {}, {"format": "x"}, {"type": 5}])
    if k == "variants" and rng.random() < 0.9:
        return [variant(rng, depth - 1) for _ in range(rng.randint(0, 2))] if depth > 0 else []
    return rng.choice(VALUES)


def variant(rng, depth):
    v = {}
    if rng.random() < 0.8:
        v["index"] = rng.choice([0, 1, 7, "3", None, -1, "x", 18446744073709551615])
    if rng.random() < 0.8:
        v["rules"] = cat_json(rng, "body", depth)
    if rng.random() < 0.3:
        v["generators"] = {p: gen_json(rng.choice(GENS)) for p in rng.sample(sorted(BODY) + ["$.["], rng.randint(0, 2))}
    return v


def rule_json(rng, depth=2):
    if rng.random() < 0.02:
        return rng.choice(VALUES)
    t = rng.choice(TYPES)
    j = {}
    k = rng.random()
    if k < 0.75:
        j["match"] = t
    elif k < 0.85:
        j["pact:matcher:type"] = t
    elif k < 0.88:
        j["match"] = rng.choice(VALUES)
    us = USUAL.get(t, [])
    for a in us if rng.random() < 0.8 else rng.sample(ATTRS, rng.randint(0, 3)):
        if rng.random() < 0.85:
            j[a] = attr(rng, a, depth)
    return j


def list_json(rng, depth):
    j = {"matchers": [good_rule(rng, depth) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]}
    if rng.random() < 0.7:
        j["combine"] = rng.choice(["AND", "OR", "or", "and", "Or", "XOR", 1, None])
    if rng.random() < 0.03:
        del j["matchers"]
    if rng.random() < 0.03:
        j["matchers"] = rng.choice(VALUES)
    return j


def good_rule(rng, depth):
    j = rule_json(rng, depth)
    if rng.random() < 0.7:
        t = rng.choice(PLAIN + ["real", "not-empty"])
        j = {"match": t}
    return j


def cat_json(rng, name, depth=2):
    if rng.random() < 0.03:
        return rng.choice(VALUES)
    if name in ("path", "method", "status") or rng.random() < 0.1:
        return list_json(rng, depth)
    if name in ("header", "query"):
        return {n: list_json(rng, depth) for n in rng.sample(sorted(NAMES.values()) + [""], rng.randint(0, 3))}
    return {p: list_json(rng, depth) for p in rng.sample(sorted(BODY) + ["$.", "a["], rng.randint(0, 3))}


CATS = ["method", "path", "header", "query", "body", "status", "contents", "metadata"]


def rules_json(rng):
    k = rng.random()
    if k < 0.6:
        return {n: cat_json(rng, n) for n in rng.sample(CATS + ["headers", "BODY", "Header", "QUERY"], rng.randint(1, 4))}
    if k < 0.95:
        out = {}
        for _ in range(rng.randint(1, 4)):
            out[v2_key(rng)] = good_rule(rng, 1)
        return out
    return rng.choice([{}, None, [], 5, "x", {"body": None}, {"$.body": None}, {"$": {"match": "type"}}])


def v2_key(rng):
    c = rng.choice(["body", "body", "body", "path", "headers", "header", "query", "headers", "query", "method", "status"])
    if c == "body":
        return "$.body" + rng.choice([p[1:] for p in BODY if p[:1] == "$"])
    if c in ("path", "method", "status"):
        return "$." + c
    return "$." + c + rng.choice(["['%s']" % n.replace("'", "\\'") for n in NAMES.values()] + ["." + n for n in ("Accept", "X-A", "q", "a")])


def run(c):
    exe = core.build()
    ops = []
    rng = c.rng
    vecs = c.model("MC_Rules")
    two = c.model("MC_Rules", cfg="MC_Rules_two.cfg")
    two = rng.sample(two, min(len(two), c.n(2500, len(two))))
    if c.thorough:
        c.model("MC_Rules", cfg="MC_Rules_deep.cfg", timeout=3000)
    c.notes["rule_sets_enumerated_by_tlc_and_replayed"] = len(vecs) + len(two)

    def write(rs, version, tok=None):
        ops.append({"op": "rules.write", "args": {"rules": rs, "version": version}, "tok": tok})

    def put(rs, tok):
        v3 = all(len(x[3]) == 2 and x[3][1][0] == "field" for n, es in tok for x in es if n in ("header", "query"))
        if v3:
            write(rs, rng.choice(["V3", "V4"]), tok)
        if all(n in ("path", "header", "query", "body") for n, _ in tok) and not any(
                n == "body" and "" in [e[0] for e in es] and "$" in [e[0] for e in es] for n, es in rs):
            write(rs, rng.choice(["V1", "V1.1", "V2"]), tok)

    for v in vecs + two:
        rs = [dec_category(x) for x in v]
        put(rs, [with_vec_tokens(d, x) for d, x in zip(rs, v)])
    for _ in range(c.n(2500, 60000)):
        rs = [category(rng, n) for n in rng.sample(CATS, rng.randint(1, 3))]
        put(rs, [with_tokens(x) for x in rs])
    for _ in range(c.n(3000, 40000)):
        r = rule(rng)
        ops.append({"op": "rules.write-one", "args": {"rule": r}, "tok": rule_tokens(r)})
    for _ in range(c.n(8000, 100000)):
        ops.append({"op": "rules.read-one", "args": {"json": rule_json(rng)}})
    for _ in range(c.n(5000, 80000)):
        ops.append({"op": "rules.read", "args": {"json": rules_json(rng), "name": rng.choice(["matchingRules", "matchingRules", "requestMatchingRules"])}})
    for _ in range(c.n(1500, 20000)):
        a = [category(rng, n, 1) for n in rng.sample(CATS, rng.randint(0, 3))]
        b = [category(rng, n, 1) for n in rng.sample(CATS, rng.randint(0, 3))]
        ops.append({"op": "rules.add", "args": {"rules": a, "other": b, "how": rng.choice(["merge", "add_rules"])},
                    "tok": [with_tokens(x) for x in a], "tok2": [with_tokens(x) for x in b]})
    c.conform(exe, "Tr_Rules", ops, encode, corrupt)
    return c.finish()


def with_vec_tokens(d, v):
    """abstract category with the tokens TLC gave"""
    return [d[0], [[e[0], e[1], [vec_rule(r, w) for r, w in zip(e[2], x[2])], untok(x[0])] for e, x in zip(d[1], v[1])]]


def untok(ts):
    return [[t[0]] + ["".join(map(chr, x)) for x in t[1:]] for t in ts]


def vec_rule(r, w):
    if r[0] in ("eachKey", "eachValue"):
        d = r[1]
        return [r[0], [d[0], d[1], [vec_rule(x, y) for x, y in zip(d[2], w[2])], d[3], d[4]]]
    if r[0] == "arrayContains":
        return [r[0], [[i, with_vec_tokens(cat, ["body", y[1]]), [g + [untok(h[0])] for g, h in zip(gs, y[2])]]
                       for (i, cat, gs), y in zip(r[1], w[1])]]
    return r
