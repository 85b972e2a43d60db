"""P17: matching JSON bodies with rules (Match.tla)"""
import copy
import core
from core import cs, enc
from p11 import re_text, rregex
from rulesabs import tok, txt, dec_json


# a rule in the form of abs.rs; "regex" also carries the tree of its expression
def enc_rule(r):
    t = r[0]
    if t == "regex":
        return [t, r[2]]
    if t in ("include", "date", "time", "datetime"):
        return [t, cs(r[1])]
    if t in ("eachKey", "eachValue"):
        return [t, [enc_rule(x) for x in r[1][2]]]
    if t == "arrayContains":
        return [t, [[i, enc_entries(c[1])] for i, c, _ in r[1]]]
    if t == "ref":
        return [t]
    if t == "statusCode":
        return [t, "codes", r[1]] if isinstance(r[1], list) else [t, r[1], []]
    return list(r)


def enc_entries(es):
    return [{"toks": [tok(t) for t in e[0]], "combine": cs(e[1]), "rules": [enc_rule(r) for r in e[2]]} for e in es]


def encode(o, r):
    a = o["args"]
    return {"op": "json", "k": r["k"], "expected": enc(a["expected"]), "actual": enc(a["actual"]), "strict": a["strict"],
            "entries": enc_entries(a["rules"][1]), "answers": [[cs(p) for p in x] for x in r["v"]] if r["k"] == "ok" else []}


def corrupt(e):
    if e["k"] != "ok":
        return dict(e, k="panic")
    ps = e["answers"][0]
    e["answers"] = [ps[1:] if ps else [[36]]]
    return e


# ---------------------------------------------------------------- values
KEYS = ["a", "b", "c", "id", "0", "1", "a b", "*", "\u20ac", "", "007", "it's", "[*]", "$"]
TEXTS = ["", "a", "ab", "true", "false", "100", "-5", "1.5", "1e3", "+7", "null", "NaN", "inf", "x1", "2020-02-29", "2021-02-29", "10:20:30", "2020-01-02T03:04:05+01:00", "2020-01-02T03:04:05Z", "1.2.3", "1.2", "1.2.3-rc.1+b", "01.2.3",
         "1.0.0-01", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "\u20ac", "a\"b", "[1]", "_", "ABC", "a-1"]
NUMS = [0, 1, -1, 2, 100, 4294967296, -4294967296, 1.5, 1.0, -0.25, 100.0, 18446744073709551615, 9223372036854775807]


def rscalar(rng):
    k = rng.random()
    if k < 0.45:
        return rng.choice(TEXTS)
    if k < 0.75:
        return rng.choice(NUMS)
    return rng.choice([True, False, None])


def rkey(rng):
    return rng.choice(KEYS[:5]) if rng.random() < 0.75 else rng.choice(KEYS)


def rvalue(rng, depth):
    k = rng.random()
    if depth == 0 or k < 0.3:
        return rscalar(rng)
    if k < 0.65:
        return {rkey(rng): rvalue(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))}
    if rng.random() < 0.4:
        x = rvalue(rng, depth - 1)
        return [mutated(rng, x, depth - 1) if rng.random() < 0.4 else copy.deepcopy(x) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    return [rvalue(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def same_kind(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return rng.choice(NUMS)
    if isinstance(v, str):
        return rng.choice(TEXTS)
    return v


def mutated(rng, v, depth=2):
    """another value, often close to v"""
    k = rng.random()
    if k < 0.08:
        return rvalue(rng, depth)
    if isinstance(v, dict):
        v = dict(v)
        if k < 0.25:
            v[rkey(rng)] = rvalue(rng, max(depth - 1, 0))
        elif k < 0.4 and v:
            v.pop(rng.choice(sorted(v)))
        elif k < 0.5 and v:
            x = rng.choice(sorted(v))
            v[rkey(rng)] = v.pop(x)
        elif v:
            x = rng.choice(sorted(v))
            v[x] = mutated(rng, v[x], depth - 1)
        return v
    if isinstance(v, list):
        v = list(v)
        if k < 0.3 and v:
            v.append(mutated(rng, rng.choice(v), depth - 1) if rng.random() < 0.6 else copy.deepcopy(rng.choice(v)))
        elif k < 0.45 and v:
            v.pop(rng.randrange(len(v)))
        elif k < 0.55:
            rng.shuffle(v)
        elif v:
            i = rng.randrange(len(v))
            v[i] = mutated(rng, v[i], depth - 1)
        return v
    return same_kind(rng, v) if rng.random() < 0.75 else rscalar(rng)


# ---------------------------------------------------------------- rules
def places(v, toks=(("root",),)):
    yield list(toks), v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from places(x, toks + (jtok(k),))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from places(x, toks + (("index", str(i)),))


def jtok(k):
    if k == "*":
        return ("star",)
    if k == "[*]":
        return ("staridx",)
    return ("index", str(int(k))) if k.isascii() and k.isdigit() else ("field", k)


def literal(s):
    return ["cat", [["c", ord(ch)] for ch in s]]


def regex_rule(rng, texts):
    k = rng.random()
    if k < 0.4:
        t = rregex(rng, 2)
    elif k < 0.7:
        t = ["rep", rng.choice([["d"], ["w"], ["set", [[97, 122]]]]), rng.choice([0, 1]), -1]
    else:
        t = ["alt", [literal(rng.choice(texts) or "a"), literal(rng.choice(TEXTS) or "b")]]
    return ["regex", re_text(t), t]


def text_rule(rng, texts):
    k = rng.random()
    if k < 0.3:
        return regex_rule(rng, texts)
    if k < 0.4:
        s = rng.choice(texts)
        return ["include", s[:rng.randint(0, 2)] if rng.random() < 0.7 else rng.choice(TEXTS)]
    return rng.choice([["type"], ["equality"], ["number"], ["integer"], ["decimal"], ["boolean"], ["notEmpty"], ["semver"], ["null"], ["date", ""], ["time", ""], ["datetime", ""],
                       ["date", "yyyy-MM-dd"], ["date", "dd/MM/yyyy"], ["time", "HH:mm:ss"], ["datetime", "yyyy-MM-dd'T'HH:mm:ssXXX"]])


def rsub(rng, v, depth):
    """the rules of an eachKey or eachValue definition"""
    n = rng.choice([1, 1, 1, 2])
    rs = [rrule(rng, v, depth - 1) for _ in range(n)]
    if rng.random() < 0.05:
        rs[0] = ["ref", "name"]
    return rs


def rrule(rng, v, depth=2):
    texts = [v] if isinstance(v, str) else [str(v)]
    k = rng.random()
    if isinstance(v, list) and k < 0.75:
        n = len(v)
        j = rng.random()
        if j < 0.45:
            return rng.choice([["type"], ["min", rng.randint(0, n + 1)], ["max", rng.randint(0, n + 1)], ["minmax", rng.randint(0, n), rng.randint(n, n + 1)], ["notEmpty"], ["equality"]])
        if j < 0.75 and depth > 0:
            variants = [[rng.choice([i, i, rng.randint(0, 3)]), ["body", rentries(rng, v[i], depth - 1)], []] for i in range(n) if rng.random() < 0.8]
            return ["arrayContains", variants if rng.random() < 0.9 else []]
        if depth > 0:
            return ["eachValue", ["", "Unknown", rsub(rng, rng.choice(v) if v else "a", depth), None, ""]]
        return ["type"]
    if isinstance(v, dict) and k < 0.75:
        n = len(v)
        j = rng.random()
        if j < 0.4:
            return rng.choice([["type"], ["values"], ["values"], ["min", rng.randint(0, n + 1)], ["max", rng.randint(0, n + 1)], ["minmax", rng.randint(0, n), rng.randint(n, n + 1)], ["notEmpty"], ["equality"]])
        x = rng.choice(sorted(v)) if v else "a"
        if j < 0.7 and depth > 0:
            return ["eachKey", ["", "Unknown", [text_rule(rng, sorted(v) or ["a"]) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.95 else [["ref", "n"]], None, ""]]
        if depth > 0:
            return ["eachValue", ["", "Unknown", rsub(rng, v.get(x, 1), depth), None, ""]]
        return ["type"]
    if k < 0.85:
        return text_rule(rng, texts)
    if depth == 0:
        return ["type"]
    return rng.choice([["type"], ["min", 1], ["max", 1], ["minmax", 0, 2], ["null"], ["values"], ["notEmpty"], ["eachKey", ["", "Unknown", [text_rule(rng, ["a"])], None, ""]],
                       ["eachValue", ["", "Unknown", [text_rule(rng, ["a"])], None, ""]], ["arrayContains", []]])


def generalise(rng, toks):
    out = [toks[0]]
    for t in toks[1:]:
        k = rng.random()
        out.append(("star",) if k < 0.22 else ("staridx",) if k < 0.35 and t[0] == "index" else t)
    return out


def rentries(rng, v, depth=2):
    ps = list(places(v))
    es = {}
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        toks, x = rng.choice(ps)
        toks = generalise(rng, toks) if rng.random() < 0.9 else generalise(rng, toks) + [("star",)]
        n = rng.choice([1, 1, 1, 1, 2, 2, 3])
        es[tuple(toks)] = [[list(t) for t in toks], rng.choice(["AND", "AND", "OR"]), [rrule(rng, x, depth) for _ in range(n)]]
    return list(es.values())


def rop(rng):
    e = rvalue(rng, 3)
    if not isinstance(e, (dict, list)) and rng.random() < 0.7:
        e = {"a": e} if rng.random() < 0.5 else [e]
    a = copy.deepcopy(e)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        a = mutated(rng, a, 2)
    return {"op": "match.json", "args": {"expected": e, "actual": a, "rules": ["body", rentries(rng, e if rng.random() < 0.8 else a)], "strict": rng.random() < 0.5}}


def dec_rule(r):
    t = r[0]
    if t == "regex":
        return [t, re_text(r[1]), r[1]]
    if t == "include":
        return [t, txt(r[1])]
    if t in ("eachKey", "eachValue"):
        return [t, ["", "Unknown", [dec_rule(x) for x in r[1]], None, ""]]
    if t == "arrayContains":
        return [t, [[i, ["body", dec_entries(es)], []] for i, es in r[1]]]
    return ["ref", "name"] if t == "ref" else r


def dec_entries(es):
    return [[[[t[0]] + [txt(x) for x in t[1:]] for t in e["toks"]], txt(e["combine"]), [dec_rule(r) for r in e["rules"]]] for e in es]


def run(c):
    exe = core.build("harness_m")
    c.model("MC_Match", cfg="MC_Match.cfg")
    if c.thorough:
        c.model("MC_Match", cfg="MC_Match_deep.cfg", timeout=3000)
        c.model("MC_Match", cfg="MC_Match_two.cfg", timeout=6000)
    vs = c.model("MC_Match", cfg="MC_Match_vec.cfg")
    c.notes["vectors_enumerated_by_tlc"] = len(vs)
    vs.sort(key=core.json.dumps)
    vs = c.rng.sample(vs, min(len(vs), c.n(4000, 40000)))
    ops = [{"op": "match.json", "args": {"expected": dec_json(v["e"]), "actual": dec_json(v["a"]), "rules": ["body", dec_entries(v["es"])], "strict": c.rng.random() < 0.5}} for v in vs]
    ops += [rop(c.rng) for _ in range(c.n(8000, 80000))]
    c.conform(exe, "Tr_Match", ops, encode, corrupt)
    return c.finish()
