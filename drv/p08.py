"""P08: query strings (Query.tla)"""
import core
from core import cs

CHARS = list("aZ09-_.~ +%&=#?/[]'\"\\") + ["\n", "\t", "\x7f", "\u00e9", "\u0100", "\u0fff", "\u4e2d", "\u2764", "\U0001f600", "\u00a0", "\u00ff"]


def txt(c):
    return "".join(map(chr, c))


def val(v):
    return [0] if v is None else [1, cs(v)]


def cmap(m):
    """map of parameters, sorted by code points of the name"""
    return [[cs(k), [val(v) for v in vs]] for k, vs in sorted(m)]


def opt(m):
    return [] if m is None else [cmap(m)]


def encode(o, r):
    a, v, ok = o["args"], r["v"], r["k"] == "ok"
    op = o["op"].split(".")[1]
    if op in ("encode", "decode"):
        return {"op": op, "s": cs(a["s"]), "k": r["k"], "out": cs(v) if ok else []}
    if op == "parse":
        return {"op": op, "s": cs(a["s"]), "k": r["k"], "out": opt(v) if ok else []}
    e = {"op": op, "m": cmap(a["m"]), "k": r["k"]}
    if ok:
        e.update(answers=[cs(x) for x in v["answers"]], back=opt(v["back"]), v1=opt(v["v1"]), v2=opt(v["v2"]), v3=opt(v["v3"]), v4=opt(v["v4"]),
                 json3=core.enc(v["json3"]), json4=core.enc(v["json4"]))
    return e


def corrupt(e):
    if e["op"] == "build":
        e["answers"] = e["answers"] + [[97]]
    elif e["k"] == "err":
        e["k"], e["out"] = "ok", e["s"]
    elif e["op"] == "parse":
        e["out"] = [(e["out"][0] if e["out"] else []) + [[[1114111], [[0]]]]]
    else:
        e["out"] = e["out"] + [98]
    return e


def pinned(s):
    """the encoding of a value fixed by the unit test request_to_json_with_a_query_must_encode_the_query_with_utf8_chars"""
    out = ""
    for c in s:
        if c == " ":
            out += "+"
        elif c == "-" or (c.isascii() and c.isalnum()):
            out += c
        else:
            h = "%x" % ord(c)
            h = h if len(h) % 2 == 0 else "0" + h
            out += "".join("%" + h[i:i + 2] for i in range(0, len(h), 2))
    return out


def classify(o, r):
    """non-ASCII values are written as code points, not as UTF-8"""
    if r["k"] != "ok":
        return None
    a, v = o["args"], r["v"]
    if o["op"] == "query.encode" and not a["s"].isascii() and v == pinned(a["s"]):
        return "query-non-ascii"
    if o["op"] == "query.build":
        vals = [x for _, vs in a["m"] for x in vs if x is not None]
        if any(not x.isascii() for x in vals):
            parts = [x.split("=", 1) for x in (v["answers"][0].split("&") if v["answers"][0] else [])]
            # every value is encoded as pinned, and everything else holds for it
            want = [(pinned(x) if x is not None else None) for k, vs in sorted(a["m"]) if k for x in vs]
            got = [(p[1] if len(p) > 1 else None) for p in parts]
            if want == got and len(v["answers"]) == 1 and sorted(a["m"]) == v["v3"] == v["v4"] and v["v2"] == v["v1"] == v["back"]:
                return "query-non-ascii"
    return None


def rstr(rng, lo, hi):
    if rng.random() < 0.1:
        return rng.choice(["%41", "%4", "%", "a%zz", "%c3%a9", "%e9", "%ff%fe", "%F0%9F%98%80", "%ed%a0%80", "%%41", "%+a", "a%2", "=&", "%\u00e9a", "\u00e9=\u00e9"])
    return "".join(rng.choice(CHARS) for _ in range(rng.randint(lo, hi)))


def rmap(rng):
    m = {}
    for _ in range(rng.randint(0, 5)):
        k = rng.choice(["a", "b", "id", "a[]", "user_id", "q.x", ""]) if rng.random() < 0.5 else rstr(rng, 0, 4)
        if k.isascii() or rng.random() < 0.5:
            m[k] = [None if rng.random() < 0.15 else rstr(rng, 0, 5) if rng.random() < 0.4 else rng.choice(["", "1", "x y", "a=b", "50%", "c&d", "+1", "#"])
                    for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            if rng.random() < 0.7:
                m[k] = [None if x is None else "".join(c for c in x if c.isascii()) for x in m[k]]
    return [[k, v] for k, v in m.items()]


def run(c):
    exe = core.build()
    c.model("MC_Query", cfg="MC_Query_deep.cfg" if c.thorough else "MC_Query.cfg", timeout=3000)
    ops = []
    for v in c.model("MC_Query", cfg="MC_Query_vec.cfg"):
        if v["s"]:
            ops.append({"op": "query.parse", "args": {"s": txt(v["s"])}})
            ops.append({"op": "query.decode", "args": {"s": txt(v["s"])}})
        else:
            ops.append({"op": "query.build", "args": {"m": [[txt(k), [None if x[0] == 0 else txt(x[1]) for x in xs]] for k, xs in v["m"]]}})
    c.notes["vectors_enumerated_by_tlc"] = len(ops)
    for _ in range(c.n(2500, 40000)):
        ops.append({"op": "query.parse", "args": {"s": rstr(c.rng, 0, 14) if c.rng.random() < 0.5 else "&".join(
            rstr(c.rng, 0, 3) + c.rng.choice(["=", "", "=="]) + rstr(c.rng, 0, 3) for _ in range(c.rng.randint(0, 4)))}})
        ops.append({"op": "query.decode", "args": {"s": rstr(c.rng, 0, 8)}})
        ops.append({"op": "query.encode", "args": {"s": rstr(c.rng, 0, 8)}})
        ops.append({"op": "query.build", "args": {"m": rmap(c.rng)}})
    c.conform(exe, "Tr_Query", ops, encode, corrupt, classify=classify)
    return c.finish()
