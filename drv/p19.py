"""P19: matching whole requests, responses and messages (Exchange.tla)"""
import copy
import json as J
import core
from core import cs, enc
from p17 import rvalue, mutated, rentries, regex_rule, text_rule, enc_entries, dec_entries, TEXTS
from p15 import enc_body, enc_headers
from rulesabs import txt

CATS = ("path", "query", "header", "body", "status", "metadata")


def enc_rules(rs):
    d = {c: [] for c in CATS}
    for name, es in rs:
        d[name] = enc_entries(es)
    return d


def enc_part(p):
    out = {"body": enc_body(p["body"]), "rules": enc_rules(p["rules"])}
    if "method" in p:
        out.update(method=cs(p["method"]), path=cs(p["path"]), query=[[cs(k), [cs(x or "") for x in v]] for k, v in p["query"] or []])
    if "status" in p:
        out["status"] = p["status"]
    if "headers" in p:
        out["headers"] = enc_headers(p["headers"])
    if "meta" in p:
        out["meta"] = [[cs(k), enc(v)] for k, v in p["meta"]]
    return out


def labels(ps):
    return [[k, cs(x)] for k, x in ps]


def encode(o, r):
    a, v = o["args"], r["v"]
    op = o["op"][6:]
    ok = r["k"] == "ok"
    if op == "message":
        op += str(a["version"])
    e = {"op": op, "k": r["k"]}
    for side in ("expected", "actual"):
        e[side] = enc_part(a[side]) if op != "sync" else {"request": enc_part(a[side]["request"]), "responses": [enc_part(x) for x in a[side]["responses"]]}
    e["wrong"] = labels(v["wrong"]) if ok else []
    if op == "request":
        e.update(all=v["all"], mp=v["mp"], score=v["score"]) if ok else e.update(all=False, mp=False, score=0)
    if op == "sync":
        e.update(request=labels(v["request"]) if ok else [], responses=labels(v["responses"]) if ok else [])
    return e


def corrupt(e):
    if e["op"] == "request" and len(e["wrong"]) % 2:
        e["score"] += 1
    elif e["wrong"]:
        e["wrong"] = [w for w in e["wrong"] if w[0] != e["wrong"][0][0]]
    else:
        e["wrong"] = [["body", [36]]]
    return e


# ---------------------------------------------------------------- texts under names
PARAMS = ["a", "b", "id", "q", "0", "a b", "*", "A"]
WORDS = ["", "a", "b", "ab", "1", "100", "true", "2020-02-29", "1.2.3", "x y", "A", "10:20:30", "abc", "-5"]
HEADERS = ["X-A", "x-b", "X-List", "Accept", "Content-Type", "content-type", "ETag", "accept-language"]
HVALUES = ["a", "b", " a", "a ", "A", "1", "100", "", "true", "2020-02-29", "x;y=1", "abc"]
TYPES = ["application/json", "application/json;charset=UTF-8", "application/json; charset=utf-8", "application/json;charset=utf-16", "application/hal+json", "text/plain", "text/plain;charset=utf-8", "application/x-www-form-urlencoded",
         "image/png", "application/octet-stream", "*/*", "not a type", "", "text/html", "application/JSON", "text/plain; a=1 ;b=2", "text/plain;b=2;a=1;c=3"]
PATHS = ["/", "/a", "/a/b", "/A", "/a/", "/100", "/a b", ""]
METHODS = ["GET", "get", "Get", "POST", "post", "PUT", "DELETE", ""]


def jtok(k):
    if k == "*":
        return ["star"]
    return ["index", str(int(k))] if k.isdigit() else ["field", k]


def rule_list(rng, one):
    n = rng.choice([1, 1, 1, 2, 2, 3, 0]) if rng.random() < 0.5 else 1
    return [rng.choice(["AND", "AND", "OR"]), [one() for _ in range(n)]]


def sub(rng, texts):
    return ["", "Unknown", [leaf(rng, texts) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.95 else [["ref", "n"]], None, ""]


def leaf(rng, texts):
    return text_rule(rng, texts) if rng.random() < 0.85 else rng.choice([["min", 1], ["max", 1], ["minmax", 1, 2], ["values"], ["null"], ["statusCode", "success"], ["statusCode", [100, 200]], ["notEmpty"]])


def list_rule(rng, texts):
    k = rng.random()
    if k < 0.5:
        return leaf(rng, texts)
    n = len(texts)
    if k < 0.75:
        return rng.choice([["type"], ["min", rng.randint(0, n + 1)], ["max", rng.randint(0, n + 1)], ["minmax", rng.randint(0, n), rng.randint(n, n + 1)], ["notEmpty"], ["equality"]])
    if k < 0.9:
        return ["eachValue", sub(rng, texts)]
    return rng.choice([["eachKey", sub(rng, texts)], ["eachValue", sub(rng, texts)], ["values"]])


def named_entries(rng, m, names, contains):
    """rules for texts under names"""
    es = {}
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k, vs = rng.choice(m) if m and rng.random() < 0.9 else (rng.choice(names), ["a"])
        toks = [["root"], jtok(k)]
        x = rng.random()
        if x < 0.25:
            toks.append(rng.choice([["index", "0"], ["index", "1"], ["staridx"], ["star"]]))
        elif x < 0.35:
            toks = [["root"], ["star"]]
        elif x < 0.4:
            toks = [["root"]]
        texts = [v or "a" for v in vs] or ["a"]
        one = (lambda: ["arrayContains", [[i, ["body", [[[["root"]] + ([["index", "0"]] if rng.random() < 0.5 else []), "AND", [leaf(rng, texts)]]]], []] for i in range(rng.randint(0, len(texts)))]]) if contains and rng.random() < 0.1 \
            else (lambda: list_rule(rng, texts)) if x >= 0.25 or rng.random() < 0.2 else (lambda: leaf(rng, texts))
        es[repr(toks)] = [toks] + rule_list(rng, one)
    return list(es.values())


def mutate_named(rng, m, names, values):
    m = [[k, list(v)] for k, v in m]
    k = rng.random()
    if k < 0.2 and m:
        m.pop(rng.randrange(len(m)))
    elif k < 0.4:
        n = rng.choice(names)
        if all(x[0] != n for x in m):
            m.append([n, [rng.choice(values) for _ in range(rng.choice([0, 1, 1, 2]))]])
    elif m:
        vs = rng.choice(m)[1]
        j = rng.random()
        if j < 0.35 and vs:
            vs[rng.randrange(len(vs))] = rng.choice(values)
        elif j < 0.7:
            vs.append(rng.choice(values) if rng.random() < 0.5 or not vs else rng.choice(vs))
        elif vs:
            vs.pop(rng.randrange(len(vs)))
    return m


def params(rng):
    names = rng.sample(PARAMS, rng.choice([0, 1, 1, 2, 3]))
    return [[n, [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]] for n in names]


def lower_unique(hs):
    out, seen = [], set()
    for h in hs:
        if h[0].lower() not in seen:
            seen.add(h[0].lower())
            out.append(h)
    return out


def hvalue(rng, name):
    return rng.choice(TYPES) if name.lower() in ("content-type", "accept") else rng.choice(HVALUES)


def headers(rng, ct=None):
    hs = [[n, [hvalue(rng, n) for _ in range(rng.choice([0, 1, 1, 1, 2, 3] if n.lower() != "content-type" else [1]))]] for n in rng.sample(HEADERS, rng.choice([0, 1, 1, 2, 3]))]
    if ct is not None:
        hs = [[rng.choice(["Content-Type", "content-type", "CONTENT-TYPE"]), [ct]]] + hs
    return lower_unique(hs)


def recase(rng, n):
    return rng.choice([n, n, n.lower(), n.upper()])


def mutate_headers(rng, hs):
    hs = mutate_named(rng, hs, HEADERS, HVALUES if rng.random() < 0.7 else TYPES) if rng.random() < 0.8 else hs
    hs = [[recase(rng, k), v] for k, v in hs]
    rng.shuffle(hs)
    return lower_unique(hs)


def header_entries(rng, hs):
    es = named_entries(rng, hs, HEADERS, False)
    out, seen = [], set()
    for e in es:                        # two entries whose paths agree in lower case: which of them applies is left open
        if rng.random() < 0.4:
            e[0] = [[t[0]] + [x.lower() for x in t[1:]] for t in e[0]]
        key = repr(e[0]).lower()
        if key not in seen:
            seen.add(key)
            out.append(e)
    return out


# ---------------------------------------------------------------- bodies
def bytes_of(t):
    return list(t.encode())


def ctypes_(rng):
    return rng.choice([None, None, None, ["application", "json", None, []], ["text", "plain", None, []], ["application", "x-www-form-urlencoded", None, []], ["application", "octet-stream", None, []], ["application", "hal", "json", []],
                       ["application", "json", None, [["charset", "utf-8"]]], ["*", "*", None, []], ["image", "png", None, []]])


def text_body(rng):
    return rng.choice(["", "a", "hello", "hello world", "abc 123", "2020-02-29", "100", "a\nb", "true", "1.2.3", "plain text that is longer than the first thirty-two bytes", "\u20ac 5"])


def pct(s):
    from urllib.parse import quote_plus
    return quote_plus(s)


def form_text(ps):
    return "&".join("%s=%s" % (pct(k), pct(v)) for k, vs in ps for v in vs)


def body_pair(rng):
    """(kind, expected body, actual body, rules)"""
    k = rng.random()
    if k < 0.12:
        return "none", edge(rng), edge(rng), []
    if k < 0.55:
        e = rvalue(rng, 2)
        a = copy.deepcopy(e)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            a = mutated(rng, a, 1)
        t = J.dumps(e), J.dumps(a, ensure_ascii=False)
        if rng.random() < 0.05:
            t = rng.choice([(t[0], "{"), ("nothing", t[1]), ("x", "y")])
        return "json", present(t[0]), present(t[1]), rentries(rng, e, 1)
    if k < 0.7:
        e = params(rng)
        a = e
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            a = mutate_named(rng, a, PARAMS, WORDS)
        return "form", present(form_text(e)), present(form_text(a)), named_entries(rng, e, PARAMS, True)
    if k < 0.85:
        e = text_body(rng)
        a = e if rng.random() < 0.4 else text_body(rng)
        return "text", present(e), present(a), one_entry(rng, [e or "a"])
    e = [rng.choice([0, 97, 49, 255, 195, 169]) for _ in range(rng.choice([0, 1, 3, 9, 12]))] if rng.random() < 0.5 else bytes_of(text_body(rng))
    a = list(e) if rng.random() < 0.4 else bytes_of(text_body(rng)) if rng.random() < 0.5 else e + [255]
    return "binary", ["present", e, None, ""], ["present", a, None, ""], one_entry(rng, ["a"])


def one_entry(rng, texts):
    if rng.random() < 0.3:
        return []
    toks = rng.choice([[["root"]], [["root"]], [["root"]], [["root"], ["field", "a"]], [["root"], ["star"]]])
    return [[toks] + rule_list(rng, lambda: leaf(rng, texts))]


def present(t):
    return ["present", bytes_of(t), None, ""]


def edge(rng):
    return rng.choice([["missing"], ["empty"], ["null"], present("null"), present("a"), present("{}"), present("")])


CT_FOR = {"json": ["application/json", "application/json", "application/hal+json", "application/json;charset=UTF-8"], "form": ["application/x-www-form-urlencoded"], "text": ["text/plain", "text/plain;charset=utf-8", "text/csv"],
          "binary": ["application/octet-stream", "image/png"], "none": [None, "application/json", "text/plain"]}


def vague_text(b):
    t = bytes(b[1]).decode("utf-8", "replace").lstrip() if b[0] == "present" else ""
    return t.startswith(("<",)) or (t.startswith("{") and any(ord(ch) > 127 for ch in t[:8]))


def bodies(rng):
    """the bodies of both sides, with content types for the headers"""
    while True:
        kind, e, a, rules = body_pair(rng)
        if not (vague_text(e) or vague_text(a)):
            break
    cts = CT_FOR[kind]
    ce = rng.choice(cts) if rng.random() < 0.85 else rng.choice([None] + TYPES[:8])
    ca = ce if rng.random() < 0.6 else rng.choice(cts) if rng.random() < 0.6 else rng.choice([None] + TYPES)
    for b in (e, a):
        if b[0] == "present" and rng.random() < 0.12:
            b[2] = ctypes_(rng)
    if rng.random() < 0.05:
        a = edge(rng)
    if rng.random() < 0.03:
        e = edge(rng)
    if not (utf8(e) and utf8(a)):            # a form of bytes that are no text is not specified
        ce, ca = [x if x is None or "form" not in x else "text/plain" for x in (ce, ca)]
        for b in (e, a):
            if b[0] == "present" and b[2] and "form" in b[2][1]:
                b[2] = None
    return e, a, rules, ce, ca


def utf8(b):
    try:
        return b[0] != "present" or bytes(b[1]).decode() is not None
    except UnicodeDecodeError:
        return False


# ---------------------------------------------------------------- parts
def cats(rng, *ps):
    return [[name, es] for name, es in ps if es or rng.random() < 0.3]


def headers_pair(rng, ce, ca):
    he = headers(rng, ce)
    ha = [h for h in he if h[0].lower() != "content-type"]
    if ca is not None:
        ha = [["Content-Type", [ca]]] + ha
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        ha = mutate_headers(rng, ha)
    return he, lower_unique(ha)


def none_or(rng, x):
    return None if not x and rng.random() < 0.5 else x


def request_op(rng):
    be, ba, rules, ce, ca = bodies(rng)
    he, ha = headers_pair(rng, ce, ca)
    pe = rng.choice(PATHS)
    pa = pe if rng.random() < 0.6 else rng.choice(PATHS)
    me = rng.choice(METHODS)
    ma = me if rng.random() < 0.6 else rng.choice(METHODS)
    qe = params(rng)
    qa = qe
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        qa = mutate_named(rng, qa, PARAMS, WORDS)
    for q in (qe, qa):
        if rng.random() < 0.05:
            for kv in q:
                kv[1] = [None if not x else x for x in kv[1]]
    path_rules = [[[]] + rule_list(rng, lambda: leaf(rng, [pe, "/"]))] if rng.random() < 0.3 else []
    rs = cats(rng, ("path", path_rules), ("query", named_entries(rng, qe, PARAMS, True)), ("header", header_entries(rng, he)), ("body", rules))
    many = rng.random() < 0.004
    if many:
        he, ha, qe, qa = he + [["h%d" % i, ["a"]] for i in range(70)], ha + [["h%d" % i, ["a"]] for i in range(rng.choice([1, 70]))], qe + [["p%d" % i, ["a"]] for i in range(70)], qa + [["p%d" % i, ["a"]] for i in range(rng.choice([1, 70]))]
        rs = []
    return {"op": "match.request", "args": {"expected": {"method": me, "path": pe, "query": none_or(rng, qe), "headers": none_or(rng, he), "body": be, "rules": rs},
                                            "actual": {"method": ma, "path": pa, "query": none_or(rng, qa), "headers": none_or(rng, ha), "body": ba, "rules": []}}}


STATUSES = [100, 199, 200, 204, 299, 300, 399, 400, 404, 499, 500, 599, 600, 0, 99, 65535]


def status_rule(rng):
    if rng.random() < 0.7:
        return ["statusCode", rng.choice(["info", "success", "redirect", "clientError", "serverError", "nonError", "error", [200, 404], []])]
    return rng.choice([["equality"], ["type"], ["integer"], ["number"], ["decimal"], ["min", 2], ["notEmpty"], ["include", "0"], regex_rule(rng, ["200", "404"]), ["boolean"]])


def response_op(rng):
    be, ba, rules, ce, ca = bodies(rng)
    he, ha = headers_pair(rng, ce, ca)
    se = rng.choice(STATUSES)
    sa = se if rng.random() < 0.5 else rng.choice(STATUSES)
    st = [[[]] + rule_list(rng, lambda: status_rule(rng))] if rng.random() < 0.5 else []
    return {"op": "match.response", "args": {"expected": {"status": se, "headers": none_or(rng, he), "body": be, "rules": cats(rng, ("status", st), ("header", header_entries(rng, he)), ("body", rules))},
                                             "actual": {"status": sa, "headers": none_or(rng, ha), "body": ba, "rules": []}}}


META = ["a", "b", "id", "A", "0", "key x"]
CTKEYS = ["contentType", "content-type", "Content-Type", "ContentType", "CONTENTTYPE"]


def rmeta(rng, ct):
    m = [[k, rvalue(rng, 0 if rng.random() < 0.85 else 1)] for k in rng.sample(META, rng.choice([0, 1, 1, 2]))]
    if ct is not None:
        m.append([rng.choice(CTKEYS), ct])
    return m


def meta_pair(rng, ce, ca):
    e = rmeta(rng, ce)
    a = [[k, copy.deepcopy(v)] for k, v in e if k not in CTKEYS]
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.random()
        if k < 0.3 and a:
            a.pop(rng.randrange(len(a)))
        elif k < 0.7 and a:
            x = rng.choice(a)
            x[1] = mutated(rng, x[1], 1)
        else:
            n = rng.choice(META)
            if all(x[0] != n for x in a):
                a.append([n, rvalue(rng, 0)])
    if ca is not None:
        a.append([rng.choice(CTKEYS) if rng.random() < 0.4 else next((k for k, _ in e if k in CTKEYS), "contentType"), ca])
    es = {}
    for _ in range(rng.choice([0, 0, 1, 2])):
        k, v = rng.choice(e) if e and rng.random() < 0.9 else (rng.choice(META), "a")
        toks = rng.choice([[["root"], jtok(k)], [["root"], jtok(k)], [["root"], jtok(k)], [["root"], ["star"]], [["root"]], [["root"], jtok(k), ["star"]]])
        es[repr(toks)] = [toks] + rule_list(rng, lambda: meta_rule(rng, v))
    return e, a, list(es.values())


def meta_rule(rng, v):
    texts = [v] if isinstance(v, str) else [str(v)]
    return text_rule(rng, texts) if rng.random() < 0.8 else rng.choice([["min", 1], ["max", 1], ["minmax", 0, 2], ["null"], ["values"], ["type"], ["type"]])


def contents_pair(rng):
    be, ba, rules, ce, ca = bodies(rng)
    me, ma, ms = meta_pair(rng, ce, ca)
    return {"body": be, "meta": me, "rules": cats(rng, ("body", rules), ("metadata", ms))}, {"body": ba, "meta": ma, "rules": []}


def message_op(rng):
    e, a = contents_pair(rng)
    return {"op": "match.message", "args": {"version": rng.choice([3, 4]), "expected": e, "actual": a}}


def sync_op(rng):
    e, a = contents_pair(rng)
    rs = [contents_pair(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    es, as_ = [x[0] for x in rs], [x[1] for x in rs]
    k = rng.random()
    if k < 0.1 and as_:
        as_ = as_[:-1]
    elif k < 0.2:
        as_ = as_ + [contents_pair(rng)[1]]
    elif k < 0.3:
        rng.shuffle(as_)
    return {"op": "match.sync", "args": {"expected": {"request": e, "responses": es}, "actual": {"request": a, "responses": as_}}}


def rop(rng):
    k = rng.random()
    return request_op(rng) if k < 0.45 else response_op(rng) if k < 0.7 else message_op(rng) if k < 0.88 else sync_op(rng)


def dec_part(p, rng):
    b = p["body"]
    return {"method": txt(p["method"]), "path": txt(p["path"]), "status": p["status"],
            "query": none_or(rng, [[txt(k), [txt(x) for x in v]] for k, v in p["query"]]),
            "headers": none_or(rng, [[txt(k), [txt(x) for x in v]] for k, v in p["headers"]]),
            "body": ["present", b[1], None, b[3]] if b[0] == "present" else b,
            "rules": [[n, dec_entries(es)] for n, es in p["rules"].items() if es]}


def vector(x, rng):
    return {"op": rng.choice(["match.request", "match.request", "match.response"]), "args": {"expected": dec_part(x["e"], rng), "actual": dec_part(x["a"], rng)}}


def run(c):
    exe = core.build("harness_m")
    vs = []
    for f in ("line", "query", "header", "body"):
        v = c.model("MC_Exchange", cfg="MC_Exchange_%s_vec.cfg" % f)
        vs.append((f, v))
        if c.thorough and f != "line":
            c.model("MC_Exchange", cfg="MC_Exchange_%s.cfg" % f, timeout=3000)
    c.notes["vectors_enumerated_by_tlc"] = sum(len(v) for _, v in vs)
    ops = []
    for f, v in vs:
        v.sort(key=core.json.dumps)
        for x in c.rng.sample(v, min(len(v), c.n(800, 10000))):
            ops.append(vector(x, c.rng))
    ops += [rop(c.rng) for _ in range(c.n(7000, 80000))]
    c.conform(exe, "Tr_Exchange", ops, encode, corrupt)
    return c.finish()
