"""P20: verifying a provider (Verifier.tla)"""
import base64
import copy
import json as J
import re
import core
from core import cs, enc
from p11 import re_text
from p15 import enc_headers, enc_oct
from p17 import enc_entries, literal
from p19 import CATS

KINDS = ["http3", "http4", "async3", "async4", "sync4"]


def opt(x):
    return [] if x is None else [cs(x)]


def octets(t):
    return list(t.encode())


def dump(v):
    return J.dumps(v, ensure_ascii=False, separators=(",", ":"))


# ---------------------------------------------------------------- the pact files
def path_text(toks):
    out = ""
    for t in toks:
        out += "$" if t[0] == "root" else "[*]" if t[0] == "staridx" else ".*" if t[0] == "star" else "[%s]" % t[1] if t[0] == "index" else ".%s" % t[1] if re.fullmatch("[A-Za-z]+", t[1]) else "['%s']" % t[1]
    return out


def rule_json(r):
    if r[0] == "regex":
        return {"match": "regex", "regex": r[1]}
    if r[0] == "include":
        return {"match": "include", "value": r[1]}
    if r[0] == "min":
        return {"match": "type", "min": r[1]}
    if r[0] == "max":
        return {"match": "type", "max": r[1]}
    if r[0] == "minmax":
        return {"match": "type", "min": r[1], "max": r[2]}
    if r[0] == "statusCode":
        return {"match": "statusCode", "status": r[1]}
    return {"match": r[0]}


def rules_json(rs):
    d = {}
    for cat, es in rs:
        ms = {}
        for toks, comb, rl in es:
            m = {"combine": comb, "matchers": [rule_json(r) for r in rl]}
            if not toks:
                d[cat] = m
            else:
                ms[toks[1][1] if cat in ("header", "metadata") else path_text(toks)] = m
        if ms:
            d[cat] = ms
    return d


def states_json(x):
    out = []
    for n, ps in x["states"]:
        out.append({"name": n, "params": ps} if ps is not None else {"name": n})
    return out


def body3(b):
    return b[1]


def body4(b):
    return {"content": b[1], "contentType": "application/json" if b[0] == "json" else "text/plain", "encoded": False}


def gens_json(gs):
    d = {}
    for cat, key, expr in gs:
        g = {"type": "ProviderState", "expression": expr}
        if cat == "path":
            d["path"] = g
        else:
            d.setdefault(cat, {})["$.%s" % key if cat == "body" else key] = g
    return d


def put(d, **kw):
    d.update({k: v for k, v in kw.items() if v not in (None, {}, [])})
    return d


def part_json(p, v4):
    d = {"headers": {k: (v if v4 else ", ".join(v)) for k, v in p["headers"]}} if p["headers"] else {}
    if p["body"][0] != "none":
        d["body"] = body4(p["body"]) if v4 else body3(p["body"])
    return put(d, matchingRules=rules_json(p.get("rules", [])), generators=gens_json(p.get("gens", [])))


def contents_json(c):
    d = {}
    if c["body"][0] != "none":
        d["contents"] = body4(c["body"])
    return put(d, metadata=dict(c["meta"]), matchingRules=rules_json(c["rules"]))


def inter_json(x):
    v4 = x["kind"][-1] == "4"
    d = put({"description": x["desc"]}, _id=x["id"], providerStates=states_json(x))
    if v4:
        put(d, key=x["key"], transport=x["transport"], type={"h": "Synchronous/HTTP", "a": "Asynchronous/Messages", "s": "Synchronous/Messages"}[x["kind"][0]])
        if x["pending"]:
            d["pending"] = True
        put(d, comments=put({}, testname=x["testname"], text=x["comments"]))
    if x["kind"][0] == "h":
        q = x["request"]
        d["request"] = dict(part_json(q, v4), method=q["method"], path=q["path"])
        put(d["request"], query={k: v for k, v in q["query"]})
        d["response"] = dict(part_json(x["response"], v4), status=x["response"]["status"])
    elif x["kind"] == "async3":
        c = x["contents"]
        if c["body"][0] != "none":
            d["contents"] = body3(c["body"])
        put(d, metaData=dict(c["meta"]), matchingRules=rules_json(c["rules"]))
    elif x["kind"] == "async4":
        d.update(contents_json(x["contents"]))
    else:
        d["request"] = x["ask"]
        d["response"] = [contents_json(c) for c in x["responses"]]
    return d


def pact_json(p):
    xs = [inter_json(x) for x in p["interactions"]]
    return dump({"consumer": {"name": p["consumer"]}, "provider": {"name": p["provider"]}, "messages" if p["kind"] == "message" else "interactions": xs,
                 "metadata": {"pactSpecification": {"version": "4.0" if p["kind"] == "v4" else "3.0.0"}}})


# ---------------------------------------------------------------- for the specification
def enc_members(d):
    return [[cs(k), enc(d[k])] for k in sorted(d or {})]


def enc_rules(rs):
    d = {c: [] for c in CATS}
    for name, es in rs:
        d[name] = enc_entries(es)
    return d


def ct_of(b):
    return ["application", "json", None, []] if b[0] == "json" else ["text", "plain", None, []]


def expected_body(b, v4):
    if b[0] == "none":
        return ["missing"]
    return ["present", octets(dump(b[1]) if b[0] == "json" else b[1]), enc_oct(ct_of(b) if v4 else None), ""]


def enc_contents(c, v4):
    return {"body": expected_body(c["body"], v4), "meta": [[cs(k), enc(v)] for k, v in c["meta"]], "rules": enc_rules(c["rules"])}


def enc_inter(x):
    v4 = x["kind"][-1] == "4"
    d = {"kind": x["kind"], "id": opt(x["id"]), "key": opt(x["key"]), "desc": cs(x["desc"]), "states": [[cs(n), enc_members(ps)] for n, ps in x["states"]], "pending": x["pending"],
         "testname": cs(x["testname"] or ""), "comments": [cs(t) for t in x["comments"]], "transport": opt(x["transport"])}
    if x["kind"][0] == "h":
        q, p = x["request"], x["response"]
        b = q["body"]
        d["request"] = {"method": cs(q["method"]), "path": cs(q["path"]), "query": [[cs(k), [cs(t or "") for t in v]] for k, v in q["query"]], "headers": enc_headers(q["headers"]),
                        "body": ["none"] if b[0] == "none" else ["json", enc(b[1])] if b[0] == "json" else ["bytes", octets(b[1])], "gens": [[c, cs(k), cs(e)] for c, k, e in q["gens"]]}
        d["response"] = {"status": p["status"], "headers": enc_headers(p["headers"]), "body": expected_body(p["body"], v4), "rules": enc_rules(p["rules"])}
    elif x["kind"] == "sync4":
        d["ask"] = enc(x["ask"])
        d["responses"] = [enc_contents(c, True) for c in x["responses"]]
    else:
        d["contents"] = enc_contents(x["contents"], v4)
    return d


def enc_port(p):
    return [] if p is None else [p]


def enc_nodes(ns):
    return [n if n[0] != "sub" else ["sub", enc_nodes(n[2])] for n in ns]


def enc_env(a):
    p = a["provider"]
    f = a["filter_trees"]
    st = a["states"]
    return {
        "provider": {"name": cs(p["name"]), "protocol": cs(p["protocol"]), "host": cs(p["host"]), "port": enc_port(p["port"]), "path": cs(p["path"]),
                     "transports": [{"transport": cs(t["transport"]), "port": enc_port(t["port"]), "path": opt(t["path"]), "scheme": opt(t["scheme"])} for t in p["transports"]]},
        "sources": [["dir", enc_nodes(s[1])] if s[0] == "dir" else s for s in a["abstract"]],
        "pacts": [{"consumer": cs(x["consumer"]), "provider": cs(x["provider"]), "interactions": [enc_inter(i) for i in x["interactions"]]} for x in a["pacts"]],
        "filter": {"desc": [] if f[0] is None else [f[0]], "state": [] if f[1] is None else [["none"]] if f[1] == "" else [["re", f[1]]]},
        "consumers": [cs(c) for c in a["consumers"]], "custom": [[cs(k), cs(v)] for k, v in a["custom"]], "reqfilter": a["reqfilter"], "teardown": st["teardown"],
        "states": {"http": bool(st.get("http")), "url": [{"host": cs(st["parts"][0]), "port": enc_port(st["parts"][1]), "path": cs(st["parts"][2])}] if st.get("parts") else [], "body": bool(st.get("body")), "retries": st.get("retries", 0)},
        "answers": [["err"] if x == "err" else ["ok", enc_members(x)] for x in st.get("answers", [])],
        "replies": [["err", cs(r)] if isinstance(r, str) else ["ok", r["status"], enc_headers(r["headers"]), r["body"]] for r in a["replies"]]}


def enc_call(c):
    if c[0] == "state":
        return ["state", opt(c[1]), cs(c[2]), enc_members(c[3]), c[4]]
    b = ["none"]
    if c[4] is not None:
        try:
            b = ["bytes", c[4], ["ok", enc(J.loads(bytes(c[4]).decode()))]]
        except ValueError:
            b = ["bytes", c[4], ["no"]]
    return ["request", cs(c[1]), cs(c[2]), enc_headers(c[3]), b]


def labels(ps):
    return [[k, cs(x)] for k, x in ps]


def enc_out(o):
    return ["bad", labels(o[1])] if o[0] == "bad" else ["error", cs(o[1])] if o[0] == "error" else ["ok"]


def enc_fail(f):
    return [cs(f[0]), enc_out(f[1]), opt(f[2])]


JTYPES = {"MethodMismatch": ("method", None), "PathMismatch": ("path", None), "StatusMismatch": ("status", None), "QueryMismatch": ("query", "parameter"), "HeaderMismatch": ("header", "key"),
          "BodyTypeMismatch": ("type", None), "BodyMismatch": ("body", "path"), "MetadataMismatch": ("meta", "key")}


def enc_jfail(j):
    m = j["mismatch"]
    if m["type"] == "error":
        o = ["error", cs(m["message"])]
    else:
        o = ["bad", [[JTYPES[x["type"]][0], cs(x[JTYPES[x["type"]][1]] if JTYPES[x["type"]][1] else "")] for x in m["mismatches"]]]
    return [cs(j["interaction"]), o, cs(m["interactionId"])]


def parse_output(out):
    """(lines before the failures, headings of pending failures, headings of failures, lines with numbers)"""
    lines, pend, errs, nums = [], [], [], []
    where = 0
    for l in out:
        if l == "\nPending Failures:\n":
            where = 1
        elif l == "\nFailures:\n":
            where = 2
        elif where == 0:
            m = re.fullmatch(r"  (.*) \(\S+( \S+)* loading, \S+( \S+)* verification\)( \[PENDING\])?", l, re.S)
            lines.append("  " + m.group(1) + (m.group(4) or "") if m else l)
        elif l.startswith("\nThere were"):
            nums.append(l)
        elif re.match(r"\d+\) ", l):
            (pend if where == 1 else errs).append(l)
    if where == 0 and lines and lines[-1] == "":
        lines.pop()
    i = 0
    while i < len(lines):
        j = i
        while j < len(lines) and lines[j].startswith('        "'):
            j += 1
        lines[i:j] = sorted(lines[i:j])
        i = max(j, i + 1)
    return lines, pend, errs, nums


def encode(o, r):
    a, v = o["args"], r["v"]
    e = {"k": r["k"], "env": enc_env(a)}
    if r["k"] != "ok":
        return e
    lines, pend, errs, nums = parse_output(v["output"])
    j = v["json"]
    e["seen"] = {"trace": [enc_call(c) for c in v["trace"]], "result": v["result"], "notices": v["notices"],
                 "results": [[opt(x[0]), opt(x[1]), cs(x[2]), cs(x[3]), enc_out(x[4]), x[5]] for x in v["results"]],
                 "errors": [enc_fail(f) for f in v["errors"]], "pending": [enc_fail(f) for f in v["pending"]],
                 "jsonErrors": [enc_jfail(f) for f in j["errors"]], "jsonPending": [enc_jfail(f) for f in j["pendingErrors"]],
                 "jsonRest": j["result"] == v["result"] and j["output"] == v["output"] and j["notices"] == v["notices"],
                 "lines": [cs(x) for x in lines], "headsPending": [cs(x) for x in pend], "headsErrors": [cs(x) for x in errs], "numbers": [cs(x) for x in nums]}
    return e


def corrupt(e):
    if e["k"] != "ok":
        return dict(e, k="panic")
    s = e["seen"]
    n = len(s["trace"]) + len(s["results"])
    if s["trace"] and n % 3 == 0:
        s["trace"].pop()
    elif s["results"] and n % 3 == 1:
        s["results"][-1][5] = not s["results"][-1][5]
    else:
        s["result"] = not s["result"]
    return e


# ---------------------------------------------------------------- random ones
DESCS = ["a request", "get user", "delete user", "d1", "order created", "a request for \u00e9", "no"]
STATES = ["user exists", "no users", "s1", "order 1", "empty db"]
VALS = ["7", "x y", "a/b", 7, 42, True, None, "\u00e9", ""]
NAMES = ["id", "name", "n"]


def rid(rng):
    return rng.choice([None, None, "77", "abc"])


def rdoc(rng, depth=2):
    k = rng.random()
    if depth and k < 0.6:
        if k < 0.45:
            return {n: rdoc(rng, depth - 1) for n in rng.sample(["a", "b", "id", "c"], rng.choice([0, 1, 2, 3]))}
        return [rdoc(rng, depth - 1) for _ in range(rng.choice([0, 1, 2]))]
    return rng.choice([1, 2, "x", "y", True, None, "5", 1.5, "2020-01-01"])


def rjson(rng):
    while True:
        v = rdoc(rng)
        if isinstance(v, (dict, list)):
            return v


def rbody(rng):
    k = rng.random()
    return ["none"] if k < 0.2 else ["text", rng.choice(["hello", "some text", "a=b"])] if k < 0.3 else ["json", rjson(rng)]


def places(v, toks=(("root",),)):
    yield list(toks), v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from places(x, toks + (("field", k),))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from places(x, toks + (("index", str(i)),))


def word_rule():
    t = ["rep", ["w"], 1, -1]
    return ["regex", re_text(t), t]


def rrule(rng, v):
    k = rng.random()
    if isinstance(v, (list, dict)):
        return rng.choice([["type"], ["type"], ["min", rng.randint(0, 2)], ["max", rng.randint(1, 3)], ["minmax", 0, 2], ["equality"]])
    if k < 0.5:
        return ["type"]
    return rng.choice([["integer"], ["number"], ["decimal"], ["equality"], ["null"], ["include", "x"], word_rule(), ["boolean"], ["notEmpty"]])


def rule_list(rng, one):
    return [rng.choice(["AND", "AND", "OR"]), [one() for _ in range(rng.choice([1, 1, 1, 2]))]]


def body_rules(rng, b):
    if b[0] != "json" or rng.random() < 0.4:
        return []
    es = {}
    ps = list(places(b[1]))
    for _ in range(rng.choice([1, 1, 2])):
        toks, v = rng.choice(ps)
        toks = [("staridx",) if t[0] == "index" and rng.random() < 0.5 else t for t in toks]
        es[tuple(toks)] = [[list(t) for t in toks]] + rule_list(rng, lambda: rrule(rng, v))
    return [["body", list(es.values())]]


def named_rules(rng, cat, names, prefix=(("root",),)):
    if not names or rng.random() < 0.6:
        return []
    n = rng.choice(names)
    return [[cat, [[[["root"], ["field", n]]] + rule_list(rng, lambda: rng.choice([["type"], word_rule(), ["include", "a"], ["equality"]]))]]]


HVALUES = ["a", "b", "x1", "a b"]


def rheaders(rng, b, must):
    hs = [[n, [rng.choice(HVALUES) for _ in range(rng.choice([1, 1, 2]))]] for n in rng.sample(["X-A", "X-List", "Etag"], rng.choice([0, 0, 1, 2]))]
    if b[0] == "text" or (b[0] == "json" and (must or rng.random() < 0.6)):
        hs.append([rng.choice(["Content-Type", "content-type"]), ["application/json" if b[0] == "json" else "text/plain"]])
    return hs


def rexpr(rng):
    n = rng.choice(NAMES + ["unknown"])
    return rng.choice([n, "${%s}" % n, "/u/${%s}" % n, "${%s}-${%s}" % (n, rng.choice(NAMES))])


def rgens(rng, q):
    gs = []
    if rng.random() < 0.35:
        gs.append(["path", "", rng.choice(["/u/${id}", "${name}", "/x/${unknown}", "/${n}/${id}"])])
    if rng.random() < 0.3:
        gs.append(["query", rng.choice([k for k, _ in q["query"]] + ["added"]), rexpr(rng)])
    if rng.random() < 0.3:
        gs.append(["header", rng.choice([k for k, _ in q["headers"] if k.lower() != "content-type"] + ["X-Added"]), rexpr(rng)])
    if q["body"][0] == "json" and isinstance(q["body"][1], dict) and q["body"][1] and rng.random() < 0.5:
        gs.append(["body", rng.choice(sorted(q["body"][1])), rexpr(rng)])
    return gs


def rmeta(rng, b):
    m = [[k, rng.choice(["v", 1, True, "w", {"a": 1}])] for k in rng.sample(["key", "topic"], rng.choice([0, 1, 2]))]
    if b[0] == "text" or (b[0] == "json" and rng.random() < 0.6):
        m.append(["contentType", "application/json" if b[0] == "json" else "text/plain"])
    return m


def rcontents(rng):
    b = rbody(rng)
    m = rmeta(rng, b)
    return {"body": b, "meta": m, "rules": body_rules(rng, b) + named_rules(rng, "metadata", [k for k, v in m if isinstance(v, str) and k != "contentType"])}


def rstates(rng):
    return [[rng.choice(STATES), rng.choice([None, None, {}, {"id": rng.choice(VALS)}, {"name": "x", "n": 5}, {"deep": {"a": [1]}}])] for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def rinter(rng, kind):
    v4 = kind[-1] == "4"
    x = {"kind": kind, "id": rid(rng), "key": rng.choice([None, "k1", "k2"]) if v4 else None, "desc": rng.choice(DESCS), "states": rstates(rng), "pending": v4 and rng.random() < 0.3,
         "testname": "test one" if v4 and rng.random() < 0.15 else None, "comments": rng.sample(["c1", "another comment"], rng.choice([1, 2])) if v4 and rng.random() < 0.2 else [],
         "transport": rng.choice([None, None, None, "http", "message", "async-message", "grpcx"]) if v4 else None}
    if kind[0] == "h":
        b = rbody(rng)
        q = {"method": rng.choice(["GET", "post", "Put", "DELETE", "x-own"]), "path": rng.choice(["/", "", "/a", "/a b/\u00e9", "a", "//a", "/a//b/", "/%20x", "/{id}", "/a+b&c=d"]),
             "query": [[k, [rng.choice(["1", "", "x y", "\u00e9&=", None, "a+b", "~*-._"]) for _ in range(rng.choice([1, 1, 2, 0]))]] for k in rng.sample(["q", "b", "a b", "\u00e9"], rng.choice([0, 0, 1, 2, 3]))], "body": b}
        q["headers"] = rheaders(rng, b, True)
        if rng.random() < 0.04:
            q["headers"].append(rng.choice([["X Bad", ["a"]], ["X-V", ["caf\u00e9"]], ["X-V", ["a\u0007b"]]]))
        q["gens"] = rgens(rng, q)
        b = rbody(rng)
        hs = rheaders(rng, b, False)
        st = [["status", [[[]] + rule_list(rng, lambda: ["statusCode", rng.choice(["success", "nonError", "clientError", [200, 404]])])]]] if v4 and rng.random() < 0.15 else []
        x["request"] = q
        x["response"] = {"status": rng.choice([200, 200, 201, 404]), "headers": hs, "body": b, "rules": st + named_rules(rng, "header", [k for k, _ in hs if k.lower() != "content-type"]) + body_rules(rng, b)}
    elif kind == "sync4":
        x["ask"] = {"contents": {"content": rjson(rng), "contentType": "application/json", "encoded": False}}
        if rng.random() < 0.5:
            x["ask"]["metadata"] = {"m": rng.choice(["v", 1])}
        x["responses"] = [rcontents(rng) for _ in range(rng.choice([1, 1, 1, 1, 0, 2]))]
    else:
        x["contents"] = rcontents(rng)
    return x


def rpact(rng):
    kind = rng.choice(["http", "v4", "v4", "message"])
    ks = {"http": ["http3"], "message": ["async3"], "v4": ["http4", "http4", "async4", "sync4"]}[kind]
    return {"kind": kind, "consumer": rng.choice(["C", "D", "Other consumer"]), "provider": rng.choice(["P", "P", "P", "Q"]), "interactions": [rinter(rng, rng.choice(ks)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}


def mutated_doc(rng, v):
    v = copy.deepcopy(v)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        if isinstance(v, dict) and v and rng.random() < 0.7:
            k = rng.choice(sorted(v))
            j = rng.random()
            if j < 0.2:
                del v[k]
            else:
                v[k] = mutated_doc(rng, v[k]) if j < 0.5 else rdoc(rng, 0)
        elif isinstance(v, dict):
            v["extra"] = 1
        elif isinstance(v, list):
            v = v + v[:1] if rng.random() < 0.5 else [mutated_doc(rng, x) for x in v]
        else:
            v = rdoc(rng, 0)
    return v


def reply_body(rng, b):
    if b[0] == "none":
        return octets(rng.choice(["", "", "x", "{}"]))
    if b[0] == "text":
        return octets(rng.choice([b[1], b[1], b[1], "other"]))
    return octets(rng.choice([dump, J.dumps])(mutated_doc(rng, b[1])) if rng.random() < 0.93 else rng.choice(["", "{", "not json"]))


def reply(rng, x):
    """an answer like the one that is expected"""
    k = rng.random()
    if k < 0.05:
        return rng.choice(["boom", "connection refused"])
    if x["kind"][0] == "h":
        p = x["response"]
        hs = [[n.lower() if rng.random() < 0.5 else n, list(vs)] for n, vs in p["headers"]]
        hs = [[n, [", ".join(vs)] if rng.random() < 0.6 and n.lower() != "etag" else vs] for n, vs in hs]
        if not any(n.lower() == "content-type" for n, _ in hs) and p["body"][0] == "json" and rng.random() < 0.6:
            hs.append(["Content-Type", [rng.choice(["application/json", "application/json;charset=UTF-8", "text/plain"])]])
        st, b = p["status"], reply_body(rng, p["body"])
    else:
        c = x["contents"] if "contents" in x else (x["responses"] or [{"body": ["none"], "meta": []}])[0]
        m = {k: v for k, v in c["meta"] if k != "contentType" or rng.random() < 0.3}
        if m and rng.random() < 0.25:
            m[rng.choice(sorted(m))] = rng.choice(["v", "z", 1, {"a": 1}])
        hs = []
        if m or rng.random() < 0.2:
            hs.append([rng.choice(["Pact-Message-Metadata", "pact-message-metadata"]), [base64.b64encode(dump(m).encode()).decode() if rng.random() < 0.95 else "!!"]])
        if c["body"][0] != "none" and rng.random() < 0.9:
            hs.append(["Content-Type", ["application/json" if c["body"][0] == "json" else "text/plain"]])
        st, b = rng.choice([200, 200, 200, 200, 201]), reply_body(rng, c["body"])
    if rng.random() < 0.1:
        st = rng.choice([500, 404, 204, 503, 301])
    if hs and rng.random() < 0.12:
        hs.pop(rng.randrange(len(hs)))
    return {"status": st, "headers": hs, "body": b}


STATE_REPLIES = [lambda r: {"status": 200, "headers": [["Content-Type", ["application/json"]]], "body": octets(dump({"id": r.choice(VALS), "n": 3}))}] * 5 + [
    lambda r: {"status": r.choice([200, 201, 204]), "headers": [], "body": octets("{\"id\":9}")},
    lambda r: {"status": 200, "headers": [["content-type", [r.choice(["text/plain", "application/json;charset=UTF-8", "application/hal+json", "rubbish"])]]], "body": octets(r.choice(["{\"id\":9}", "[1]", "{"]))},
    lambda r: {"status": r.choice([404, 400, 302]), "headers": [], "body": []}]


def state_replies(rng):
    out = []
    while rng.random() < 0.12:
        out.append({"status": rng.choice([500, 503, 599]), "headers": [], "body": []})
    out.append("no connection" if rng.random() < 0.03 else rng.choice(STATE_REPLIES)(rng) if rng.random() < 0.5 else STATE_REPLIES[0](rng))
    return out


def rtree(rng, words):
    w = rng.choice(words) or "a"
    w = "".join(ch for ch in w if ch.isascii()) or "a"
    k = rng.random()
    if k < 0.5:
        i = rng.randrange(len(w))
        return literal(w[i:i + rng.randint(1, 5)])
    if k < 0.7:
        return ["alt", [literal(w), literal(rng.choice(["zz", "user", "1"]))]]
    if k < 0.85:
        return ["cat", [["c", ord(w[0])], ["rep", ["set", [[97, 122]]], 0, -1], ["c", ord(w[-1])]]]
    return rng.choice([["d"], literal("zzz"), ["rep", ["d"], 2, 2], ["w"]])


def rprovider(rng):
    def tr():
        return {"transport": rng.choice(["http", "message", "async-message", "sync-message", "grpcx"]), "port": rng.choice([None, 80, 90, 9090]), "path": rng.choice([None, "", "/", "/m", "/m/", "/a b/c"]), "scheme": rng.choice([None, None, "http"])}
    return {"name": "P", "protocol": "http", "host": rng.choice(["localhost", "h", "127.0.0.1"]), "port": rng.choice([None, 80, 8080]), "path": rng.choice(["", "/", "/base", "/base/", "/b/c//"]),
            "transports": [tr() for _ in range(rng.choice([0, 0, 1, 2, 3]))]}


def rsources(rng, pacts):
    """(for the code, abstract)"""
    real, abst = [], []
    todo = list(range(len(pacts)))

    def bad():
        return rng.choice(["{", "", "nonsense"])

    while todo or (rng.random() < 0.15 and len(real) < 4):
        k = rng.random()
        if not todo or k < 0.08:
            if rng.random() < 0.5:
                real.append(rng.choice([["text", bad()], ["file", None], ["file", bad()], ["dir", None]]))
                abst.append(["bad"])
            else:
                real.append(["dir", []])
                abst.append(["dir", []])
            if not todo:
                break
        elif k < 0.65:
            i = todo.pop(0)
            real.append([rng.choice(["text", "file"]), pact_json(pacts[i])])
            abst.append(["pact", i + 1])
        else:                          # in a directory at most one pact is verified: the order of files is not known
            r, a = [], []
            seen = False
            while todo and len(r) < 3:
                i = todo[0]
                if pacts[i]["provider"] == "P" and seen:
                    break
                seen = seen or pacts[i]["provider"] == "P"
                todo.pop(0)
                r.append(pact_json(pacts[i]))
                a.append(["pact", i + 1])
            if rng.random() < 0.25:
                r.append(bad())
                a.append(["bad"])
            fs = [["f%d.json" % n, t] for n, t in enumerate(r)]
            for depth in range(rng.choice([0, 0, 1, 2])):
                if fs:
                    cut = rng.randint(0, len(fs) - 1)
                    fs = fs[:cut] + [["sub%d" % depth, fs[cut:]]]
                    a = a[:cut] + [["sub", "", a[cut:]]]
            real.append(["dir", fs])
            abst.append(["dir", a])
    return real, abst


def rop(rng):
    pacts = [rpact(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    sources, abst = rsources(rng, pacts)
    used = [x for p in pacts for x in p["interactions"] if p["provider"] == "P" or True]
    custom = [[n, rng.choice(["1", "Bearer x", "a, b"])] for n in rng.sample(["x-a", "X-A", "Authorization", "content-type", "X-Custom"], rng.choice([0, 0, 0, 1, 2]))]
    if len({k.lower() for k, _ in custom}) < len(custom):
        custom = custom[:1]
    if rng.random() < 0.03:
        custom.append(rng.choice([["bad name", "x"], ["X-V", "a\u0007b"], ["", "x"]]))
    ft = [rtree(rng, [x["desc"] for x in used] or ["a"]) if rng.random() < 0.25 else None,
          (rtree(rng, [s[0] for x in used for s in x["states"]] or ["a"]) if rng.random() < 0.7 else "") if rng.random() < 0.25 else None]
    st = {"teardown": rng.random() < 0.4}
    http = rng.random() < 0.3
    replies = []
    keep = [x for p in pacts for x in p["interactions"]]
    if http:
        parts = rng.choice([None, ("sc", 9000, "/states"), ("sc", None, "/"), ("localhost", 80, "/a b/")])
        st.update(http=True, parts=parts, body=rng.random() < 0.5, retries=rng.choice([0, 1, 2, 3, 3]))
        st["url"] = None if parts is None else "http://%s%s%s" % (parts[0], "" if parts[1] is None else ":%d" % parts[1], parts[2])
    else:
        st["answers"] = ["err" if rng.random() < 0.06 else {k: rng.choice(VALS) for k in rng.sample(NAMES, rng.choice([0, 1, 1, 2]))} for _ in range(rng.choice([0, 3, 8, 12]))]
    for x in keep:
        n = max(len(x["states"]), 1)
        if http and st["url"]:
            for _ in range(n):
                replies += state_replies(rng)
        replies.append(reply(rng, x))
        if http and st["url"] and st["teardown"]:
            for _ in range(n):
                replies += state_replies(rng)
    if rng.random() < 0.05 and replies:
        replies.pop(rng.randrange(len(replies)))
    return {"op": "verify.run", "args": {
        "provider": rprovider(rng), "sources": sources, "abstract": abst, "pacts": pacts, "filter_trees": ft,
        "filter": [None if ft[0] is None else re_text(ft[0]), None if ft[1] is None else "" if ft[1] == "" else re_text(ft[1])],
        "consumers": rng.choice([[], [], [], ["C"], ["C", "Other consumer"]]), "custom": custom, "reqfilter": rng.random() < 0.3, "states": st, "replies": replies}}


# ---------------------------------------------------------------- behaviours of the model
def shaped(sh, i):
    kind, n, pending = sh
    d = chr(96 + i)
    x = {"kind": kind, "id": None, "key": None, "desc": d, "states": [["%s%d" % (d, k), {"id": k}] for k in range(1, n + 1)], "pending": pending, "testname": None, "comments": [], "transport": None}
    letter = {"body": ["none"], "meta": [["key", "v"]], "rules": []}
    if kind == "http4":
        x["request"] = {"method": "GET", "path": "/", "query": [], "headers": [], "body": ["none"], "gens": [["path", "", "/u/${id}"]]}
        x["response"] = {"status": 200, "headers": [], "body": ["none"], "rules": []}
    elif kind == "sync4":
        x["ask"] = {}
        x["responses"] = [letter]
    else:
        x["contents"] = letter
    return x


def meta_reply(v):
    return {"status": 200, "headers": [["Pact-Message-Metadata", [base64.b64encode(dump({"key": v}).encode()).decode()]]], "body": []}


def vop(v):
    """a complete behaviour of the model, as an operation on the code"""
    xs = [shaped(sh, i + 1) for i, sh in enumerate(v["shape"])]
    pact = {"kind": "v4", "consumer": "C", "provider": "P", "interactions": xs}
    st = {"teardown": v["tear"]}
    http = v["mode"] != "call"
    if http:
        parts = None if v["mode"] == "nourl" else ("sc", 9000, "/s")
        st.update(http=True, parts=parts, body=v["mode"] == "twice", retries=2 if v["mode"] == "twice" else 0, url=None if parts is None else "http://sc:9000/s")
    else:
        st["answers"] = ["err" if nm == "no" else {"id": 7} for _, ph, nm in v["log"] if ph != "request"]
    replies = []
    for n, ph, nm in v["log"]:
        x = xs[n - 1]
        if nm == "cut":
            replies.append("cut")
        elif nm in ("s404", "s503"):
            replies.append({"status": int(nm[1:]), "headers": [], "body": []})
        elif ph == "request":
            replies.append({"status": 200 if nm == "right" else 201, "headers": [], "body": []} if x["kind"] == "http4" else meta_reply("v" if nm == "right" else "w"))
        elif http:
            replies.append({"status": 200, "headers": [["Content-Type", ["application/json"]]], "body": octets('{"id":7}')})
    return {"op": "verify.run", "args": {
        "provider": {"name": "P", "protocol": "http", "host": "h", "port": None, "path": "/", "transports": []}, "sources": [["text", pact_json(pact)]], "abstract": [["pact", 1]], "pacts": [pact],
        "filter_trees": [None, None], "filter": [None, None], "consumers": [], "custom": [], "reqfilter": False, "states": st, "replies": replies}}


def run(c):
    exe = core.build("harness_v")
    vecs = c.model("MC_Verifier")
    two = c.model("MC_Verifier", cfg="MC_Verifier_both.cfg" if c.thorough else "MC_Verifier_two.cfg")
    vecs += two if c.thorough else c.rng.sample(two, min(len(two), 2500))
    if c.thorough:
        c.model("MC_Verifier", cfg="MC_Verifier_deep.cfg", timeout=3000)
        c.model("MC_Verifier", cfg="MC_Verifier_tries.cfg", timeout=3000)
    c.conform(exe, "Tr_Verifier", [vop(v) for v in vecs], encode, corrupt)
    ops = [rop(c.rng) for _ in range(c.n(2000, 20000))]
    c.conform(exe, "Tr_Verifier", ops, encode, corrupt)
    return c.finish()
