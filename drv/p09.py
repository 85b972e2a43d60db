"""P09: matching rule definitions (MatchDef.tla)"""
import core
from core import cs
from p11 import enc_gen
from rulesabs import txt


def enc_rule(r):
    if r[0] in ("eachKey", "eachValue"):
        return [r[0], enc_def(r[1])]
    return [r[0]] + [cs(str(x)) for x in r[1:]]


def enc_def(d):
    return [cs(d[0]), d[1], [enc_rule(r) for r in d[2]], [enc_gen(d[3])] if d[3] else [], cs(d[4])]


def encode(o, r):
    a, v, k = o["args"], r["v"], r["k"]
    if o["op"] == "def.merge":
        return {"op": "merge", "a": enc_def(a["a"]), "b": enc_def(a["b"]), "k": k, "out": enc_def(v) if k == "ok" else []}
    if k == "ok" and v["def"] is None:
        return {"op": "parse", "s": cs(a["s"]), "k": "err", "starts": v["starts"], "def": []}
    return {"op": "parse", "s": cs(a["s"]), "k": k, "starts": k == "ok" and v["starts"], "def": enc_def(v["def"]) if k == "ok" else []}


def corrupt(e):
    if e["op"] == "merge":
        e["out"][1] = "Other"
    elif e["k"] == "ok" and len(e["s"]) % 3 == 0:
        e["def"][0] = e["def"][0] + [0]
    elif len(e["s"]) % 3 == 1:
        e["starts"] = not e["starts"]
    else:
        e["k"] = "panic"
    return e


# ---------------------------------------------------------------- random definitions
RAW = ["a", "Name", "", "\\\\", "\\\\\\\\", "it\\'s", "\\'", "'", "a\\'b\\'", "x\\\\", "\\n\\t", "\\b\\f\\r", "\\u0041", "\\u{1F600}", "\\u{41}", "\\uD800", "\\u{110000}", "\\u12", "\\u{12", "\\u{}", "\\uzzzz",
       "\\d+", "(\\w)\\.", "\\", "\u00e9", "\u65e5\u672c", "a,b", "(", ")", "matching(type, 1)", "$.a['b']", "yyyy-MM-dd", "a b\nc", "\t", "1.0.0", "null", "true", "\"x\"", "{}", "\U0001F600"]
WORDS = ["matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost", "equalTo", "type", "number", "integer", "decimal", "boolean", "datetime", "date", "time",
         "regex", "contentType", "include", "semver", "fromProviderState", "null", "true", "false", "fromProviderStates", "matchingX", "Matching", "nullable", "trues", "values", "x"]
NUMS = ["0", "1", "2", "10", "007", "100", "-1", "-0", "-100", "1.5", "12.50", "-12.5", "100.22", "0.0", "12.", ".5", "-.5", "1.2.3", "--1", "1e3", "-", "123456789012345678", "-123456789012345678",
        "18446744073709551615", "18446744073709551616", "-9223372036854775809", "12.34.56", "1 .5", "1. 5"]
VERSIONS = ["1.0.0", "0.0.0", "1.2", "1.2.3.4", "01.2.3", "1.2.3-a", "1.2.3-0", "1.2.3-01", "1.2.3-a.b-c.1", "1.2.3+", "1.2.3+01.x", "1.2.3-", "1.2.3-a..b", "v1.2.3", "1.2.3 ", "", "1.2.x", "1.2.3+a-b", "1.2.3-a+b+c",
            "18446744073709551615.0.0", "18446744073709551616.0.0", "1.2.3-\u00e9"]
BLANKS = ["", "", "", " ", "  ", "\n", "\t", " \f", "\u00a0", "\r\n"]


def rstr(rng, pool=RAW):
    s = rng.choice(pool) if rng.random() < 0.7 else "".join(rng.choice(pool + ["a", "\\\\", "\\'"]) for _ in range(rng.randint(0, 3)))
    return "'%s'" % s


def rlit(rng):
    return rng.choice([rstr(rng), rstr(rng), rng.choice(NUMS), rng.choice(["true", "false", "null"])])


def rval(rng):
    return "fromProviderState(%s,%s)" % (rstr(rng), rlit(rng)) if rng.random() < 0.25 else rlit(rng)


def rrule(rng):
    k = rng.choice(["equalTo", "type", "number", "integer", "decimal", "boolean", "datetime", "date", "time", "regex", "contentType", "include", "semver", "$"])
    if k == "$":
        return "$" + rstr(rng)
    if k in ("equalTo", "type"):
        return "%s,%s" % (k, rval(rng))
    if k in ("number", "integer", "decimal"):
        return "%s,%s" % (k, rng.choice(NUMS) if rng.random() < 0.7 else rval(rng))
    if k == "boolean":
        return "%s,%s" % (k, rng.choice(["true", "false", "'true'", "1", "fromProviderState('e', true)"]))
    if k in ("datetime", "date", "time"):
        return "%s,%s,%s" % (k, rstr(rng), rstr(rng) if rng.random() < 0.6 else rval(rng))
    if k in ("regex", "contentType"):
        return "%s,%s,%s" % (k, rstr(rng), rstr(rng))
    return "%s,%s" % (k, rstr(rng, VERSIONS if k == "semver" else RAW))


def rexp(rng, depth=3):
    k = rng.random()
    if k < 0.55:
        return "matching(%s)" % rrule(rng)
    if k < 0.68:
        return "notEmpty(%s)" % rval(rng)
    if k < 0.8:
        return "%s(%s)" % (rng.choice(["atLeast", "atMost"]), rng.choice(NUMS) if rng.random() < 0.4 else rng.randint(0, 30))
    if depth == 0:
        return "matching($%s)" % rstr(rng)
    return "%s(%s)" % (rng.choice(["eachKey", "eachValue"]), rexp(rng, depth - 1))


def space(rng, s):
    """blanks around the punctuation outside strings"""
    out, quoted = "", False
    for i, ch in enumerate(s):
        if ch == "'" and (i == 0 or s[i - 1] != "\\"):
            quoted = not quoted
        out += ch if quoted or ch not in "(),$" else rng.choice(BLANKS[:8]) + ch + rng.choice(BLANKS[:8])
    return out


def mutate(rng, s):
    for _ in range(rng.randint(1, 2)):
        i = rng.randint(0, len(s))
        k = rng.random()
        if k < 0.35:
            s = s[:i] + s[i + 1:]
        elif k < 0.75:
            s = s[:i] + rng.choice(["'", "\\", "(", ")", ",", "$", ".", "-", "1", "a", " ", "\u00e9", "#", "\u00a0", "\r"] + WORDS) + s[i:]
        elif k < 0.85:
            s = s[:i]
        else:
            s = s + rng.choice(["#", ".5", " 'x'", ",", ", ", " x", "'", "\u00e9", ")", ", matching(type, 1) ?", ";"])
    return s


def rtext(rng):
    k = rng.random()
    if k < 0.1:
        return "".join(rng.choice(WORDS + ["(", ")", ",", "'a'", "1", "$", " ", "'", ".", "\u00e9"]) for _ in range(rng.randint(0, 8)))
    s = ("," if rng.random() < 0.9 else ", ").join(rexp(rng) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    if rng.random() < 0.5:
        s = space(rng, s)
    return mutate(rng, s) if rng.random() < 0.4 else s


TYPES = ["Unknown", "String", "Number", "Integer", "Decimal", "Boolean"]


def rdef(rng, t=None, depth=2):
    def rule():
        k = rng.random()
        if k < 0.3:
            return rng.choice([["type"], ["equality"], ["number"], ["semver"], ["notEmpty"]])
        if k < 0.5:
            return rng.choice([["min", 1], ["max", 2], ["regex", "a"], ["ref", "x"]])
        if k < 0.7 and depth:
            return [rng.choice(["eachKey", "eachValue"]), rdef(rng, None, depth - 1)]
        return ["include", rng.choice(["a", ""])]
    return [rng.choice(["", "", "a", "b", "\u00e9"]), t or rng.choice(TYPES), [rule() for _ in range(rng.choice([0, 1, 1, 2]))],
            rng.choice([None, None, ["Uuid", None], ["RandomInt", 1, 2], ["Date", "yyyy", None], ["ProviderState", "e", "RAW"]]), rng.choice(["", "", "x", "y", "atLeast(2)"])]


def run(c):
    exe = core.build()
    ops = []
    for cfg in ["MC_MatchDef", "MC_MatchDef_wide"] + (["MC_MatchDef_deep"] if c.thorough else []):
        for v in c.model("MC_MatchDef", cfg=cfg + ".cfg", timeout=3000):
            ops.append({"op": "def.parse", "args": {"s": txt(v["s"])}})
    c.notes["definitions_enumerated_by_tlc"] = len(ops)
    for s in [txt_ for w in WORDS for txt_ in (w, w + "(", w + "()", "matching(%s" % w, "matching(%s)" % w, "matching(%s," % w, "matching(type, %s)" % w, " " + w, "'%s'" % w)]:
        ops.append({"op": "def.parse", "args": {"s": s}})
    for r in RAW:
        for f in ("matching(type, '%s')", "matching(regex, '%s', '%s')", "notEmpty('%s')", "matching($ '%s')", "matching(date, '%s', '%s')", "eachKey(matching(equalTo, fromProviderState('%s', '%s')))"):
            ops.append({"op": "def.parse", "args": {"s": f.replace("%s", r)}})
    for n in NUMS:
        for f in ("matching(type, %s)", "matching(number, %s)", "matching(integer, %s)", "matching(decimal, %s)", "notEmpty(%s)", "atLeast(%s)", "atMost( %s )", "matching(decimal, fromProviderState('a', %s))"):
            ops.append({"op": "def.parse", "args": {"s": f % n}})
    for v in VERSIONS:
        ops.append({"op": "def.parse", "args": {"s": "matching(semver, '%s')" % v}})
    for _ in range(c.n(9000, 100000)):
        ops.append({"op": "def.parse", "args": {"s": rtext(c.rng)}})
    for t in TYPES:
        for u in TYPES:
            ops.append({"op": "def.merge", "args": {"a": rdef(c.rng, t), "b": rdef(c.rng, u)}})
    for _ in range(c.n(600, 6000)):
        ops.append({"op": "def.merge", "args": {"a": rdef(c.rng), "b": rdef(c.rng)}})
    c.conform(exe, "Tr_MatchDef", ops, encode, corrupt)
    return c.finish()
