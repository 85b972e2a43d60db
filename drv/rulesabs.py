"""abstract forms of rules, generators and categories <-> the tuples of Rules.tla"""
from core import cs, enc


def txt(c):
    return "".join(map(chr, c))


def tok(t):
    return [t[0]] + [cs(x) for x in t[1:]]


def gen_json(g):
    """the JSON of a generator in abstract form"""
    t, a = g[0], g[1:]
    j = {"type": t}
    if t == "RandomInt":
        j.update(min=a[0], max=a[1])
    elif t == "Uuid":
        if a[0]:
            j["format"] = a[0]
    elif t in ("RandomDecimal", "RandomHexadecimal"):
        j["digits"] = a[0]
    elif t == "RandomString":
        j["size"] = a[0]
    elif t == "Regex":
        j["regex"] = a[0]
    elif t in ("Date", "Time", "DateTime"):
        j.update({k: v for k, v in (("format", a[0]), ("expression", a[1])) if v is not None})
    elif t == "ProviderState":
        j["expression"] = a[0]
        if a[1]:
            j["dataType"] = a[1]
    elif t == "MockServerURL":
        j.update(example=a[0], regex=a[1])
    return j


def json_gen(j):
    t = j["type"]
    if t == "Uuid":
        return [t, j.get("format")]
    if t == "RandomInt":
        return [t, j["min"], j["max"]]
    if t == "RandomString":
        return [t, j["size"]]
    raise ValueError(t)


def enc_gen(g):
    return enc(gen_json(g))


def enc_def(tag, d):
    return [tag, cs(d[0]), [enc_rule(r) for r in d[2]], [enc_gen(d[3])] if d[3] else []]


def enc_rule(r):
    t = r[0]
    if t in ("min", "max", "minmax"):
        return [t] + [cs(str(n)) for n in r[1:]]
    if t == "statusCode":
        return [t, ["codes", r[1]] if isinstance(r[1], list) else ["name", r[1]]]
    if t in ("eachKey", "eachValue"):
        return enc_def(t, r[1])
    if t == "arrayContains":
        return [t, [[cs(str(i)), enc_category(c)[1], [[[tok(x) for x in e[2]], enc_gen(e[1]), cs(e[0])] for e in g]] for i, c, g in r[1]]]
    return [t] + [cs(x) for x in r[1:]]


def enc_category(c):
    return [c[0], [[[tok(x) for x in e[3]], e[1], [enc_rule(r) for r in e[2]], cs(e[0])] for e in c[1]]]


def dec_json(v):
    """the tagged tree of Lib.tla back to JSON"""
    t = v[0]
    if t == "n":
        return None
    if t == "b":
        return v[1] == 1
    if t == "i":
        return v[1]
    if t == "f":
        s = txt(v[1])
        return int(s) if s.lstrip("-").isdigit() else float(s)
    if t == "s":
        return txt(v[1])
    if t == "a":
        return [dec_json(x) for x in v[1]]
    return {txt(m[0]): dec_json(m[1]) for m in v[1]}


def dec_rule(r):
    t = r[0]
    if t in ("min", "max", "minmax"):
        return [t] + [int(txt(n)) for n in r[1:]]
    if t == "statusCode":
        return [t, r[1][1]]
    if t in ("eachKey", "eachValue"):
        return [t, [txt(r[1]), "Unknown", [dec_rule(x) for x in r[2]], json_gen(dec_json(r[3][0])) if r[3] else None, ""]]
    if t == "arrayContains":
        return [t, [[int(txt(i)), dec_category(["body", es]), [[txt(g[2]), json_gen(dec_json(g[1]))] for g in gs]] for i, es, gs in r[1]]]
    return [t] + [txt(x) for x in r[1:]]


def dec_category(c):
    return [c[0], [[txt(e[3]), e[1], [dec_rule(r) for r in e[2]]] for e in c[1]]]
