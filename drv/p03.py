"""P03: a pact that is written and loaded again (PactJson.tla)"""
import hashlib
import json
import core
from core import cs, enc
from p15 import enc_body


def ho(x):
    """what may be missing"""
    return [] if x is None else [cs(x)]


def members(m):
    return sorted([cs(k), enc(v)] for k, v in m)


def rtok(t):
    """rules and generators: what they are and the JSON they have"""
    if not t:
        return []
    if isinstance(t[0], str):
        # paths are compared by their tokens, not by their text
        what = [[c[0], sorted((e[1:] for e in c[1]), key=json.dumps)] for c in json.loads(t[0])]
        return [hashlib.sha1(json.dumps(what).encode()).hexdigest(), enc(t[1])]
    return ["args", ["n"]]


def hdrs(h):
    return ["none"] if h is None else ["some", sorted([cs(k), [cs(x) for x in v]] for k, v in h)]


def qry(q):
    return ["none"] if q is None else ["some", sorted([cs(k), [[0] if x is None else [1, cs(x)] for x in v]] for k, v in q)]


def part(p):
    d = {"body": enc_body(p["body"]), "rules": rtok(p["rules"]), "gens": rtok(p["gens"])}
    if "metadata" in p:
        d["metadata"] = members(p["metadata"])
    else:
        d["headers"] = hdrs(p["headers"])
    if "method" in p:
        d.update(method=cs(p["method"]), path=cs(p["path"]), query=qry(p["query"]))
    if "status" in p:
        d["status"] = p["status"]
    return d


def inter(i):
    k = i["kind"]
    d = {"kind": k, "id": ho(i["id"]), "description": cs(i["description"]), "states": [[cs(s[0]), members(s[1])] for s in i["states"]]}
    if k in ("msg3", "async4"):
        d["contents"] = part(i["contents"])
    elif k == "sync4":
        d["request"] = part(i["request"])
        d["response"] = [part(x) for x in i["response"]]
    else:
        d["request"] = part(i["request"])
        d["response"] = part(i["response"])
    if k in ("http4", "async4", "sync4"):
        d.update(key=ho(i["key"]), transport=ho(i["transport"]), comments=members(i["comments"]), pending=i["pending"],
                 plugins=sorted([cs(n), members(m)] for n, m in i["plugins"]), markup=[cs(x) for x in i["markup"]])
    return d


def pact(p):
    return {"kind": p["kind"], "consumer": cs(p["consumer"]), "provider": cs(p["provider"]), "version": p["version"], "metadata": members(p["metadata"]),
            "plugins": [[cs(n), cs(v), members(m)] for n, v, m in p["plugins"]], "interactions": [inter(i) for i in p["interactions"]]}


def encode(o, r):
    a, v, k = o["args"], r["v"], r["k"]
    if o["op"] == "pact.round":
        e = {"op": "round", "k": k, "spec": a["spec"], "d1": pact(v["d1"] if k == "ok" else a["pact"])}
        if k == "ok":
            e.update(j1=enc(v["j1"]), d2=pact(v["d2"]), same=v["j1"] == v["j2"])
        return e
    e = {"op": "load", "k": k, "j": enc(a["json"]), "table": [rtok(t) for t in a.get("known", [])]}
    if k == "ok":
        spec = v["d"]["version"]
        e.update(d=pact(v["d"]), out=enc(v["j"]), spec="V3" if spec == "Unknown" else spec)
    return e


def corrupt(e):
    if e["k"] != "ok":
        return None
    if e["op"] == "round":
        # one that is known to lose nothing
        if e["spec"] != "V4" or e["d1"]["metadata"] or e["d1"]["interactions"]:
            e["k"] = "panic"
        elif len(e["d1"]["consumer"]) % 2:
            e["same"] = False
        elif len(e["d1"]["provider"]) % 2:
            e["d2"]["provider"] = [46]
        else:
            e["j1"] = ["o", e["j1"][1][1:]]
        return e
    e["d"]["consumer"] = e["d"]["consumer"] + [46]
    return e


# ---------------------------------------------------------------- random pacts
NAMES = ["", "a", "A Consumer", "x\u00e9\"y", "\U0001f600", "name\nline"]
DESCS = ["a request", "another request", "", "b", "B", "\u00e9", "GET /a \"b\"", "1", "null", "b2", "{\"a\":1}", "a\tb", "<html>"]
PNAMES = ["id", "name", "a b", "", "\u00e9", "$", "x.y", "pact:x"]
VALS = [None, True, False, 0, 1, -5, 12345678, "", "text", "null", "1", [], {}, [1, "a", None], {"a": {"b": [1, 2]}}, 1.5, -0.25, "2020-01-01", {"": 1}, "\u00e9\u20ac", 12345678901, -123456789012345678]
METHODS = ["GET", "POST", "put", "Options", "PATCH", "x-own"]
PATHS = ["/", "", "/a/b", "/a b", "/\u00e9", "/a?b=c", "/%20"]
QTEXTS = [None, "", "1", "x y", "a=b&c", "%41", "+", "\u00e9", "[0]", "a,b"]
QNAMES = ["a", "q", "x y", "a[0]", "", "b&c", "\u00e9", "Q"]
HNAMES = ["X-Test", "x-b", "Accept", "Date", "Content-Length", "Set-Cookie", "ETag", "If-Modified-Since", "\u00e9"]
HVALS = ["a", "b; q=0.1", "a=1", "text/plain", "*/*", "2", "caf\u00e9", "W/\"x\""]
DATE = "Mon, 01 Dec 2008 01:15:39 GMT"
CTHEAD = ["application/json", "text/plain", "application/xml", "image/png", "application/hal+json", "text/html; charset=utf-8", "application/x-www-form-urlencoded", "application/octet-stream", "APPLICATION/JSON", "not a type", "", "application/graphql",
          "multipart/form-data; boundary=\"a b\"", "application/vnd.x+xml", "application/vnd.x", "application/json; charset=utf-8"]
JTEXTS = ["{}", "[]", "1", "true", "null", '"text"', '{"a":1,"b":[true,null,"x"],"c":{"d":1.5}}', '{ "z": 1, "a": {"\u00e9":"\u20ac"} }', "[1, 2, 3]", '"{}"', '"\\"a\\""', '""', "[[],{}]", "-1.25", '{"a":"b","a":"c"}', '"null"', "12345678901", '{"content":"x","contentType":"y","encoded":true}']
OTEXTS = ["hello", "", "a=b&c=d", "<a>x</a>", "caf\u00e9", "not {json", "aGVsbG8=", "aGVsbG8", "line\nline\r\n", "{bad", "query { a }", "true story", "\ttext", "1, 2"]
BINS = [[255, 0, 1], [0x89, 0x50, 0x4e, 0x47, 13, 10, 26, 10], [0xff, 0xfe, 0x41], list(range(128, 160))]


def ct_of(text):
    t = {"application/json": ["application", "json", None, []], "APPLICATION/JSON": ["application", "json", None, []], "text/plain": ["text", "plain", None, []], "application/xml": ["application", "xml", None, []], "image/png": ["image", "png", None, []],
         "application/hal+json": ["application", "hal", "json", []], "application/octet-stream": ["application", "octet-stream", None, []], "application/x-www-form-urlencoded": ["application", "x-www-form-urlencoded", None, []],
         "application/graphql": ["application", "graphql", None, []], "application/vnd.x+xml": ["application", "vnd.x", "xml", []], "application/vnd.x": ["application", "vnd.x", None, []],
         "text/html; charset=utf-8": ["text", "html", None, [["charset", "utf-8"]]], "application/json; charset=utf-8": ["application", "json", None, [["charset", "utf-8"]]], "multipart/form-data; boundary=\"a b\"": ["multipart", "form-data", None, [["boundary", "a b"]]]}
    return t.get(text)


def rbody(rng, declared, v4):
    """a body and mostly what fits the declared content type"""
    k = rng.random()
    if k < 0.16:
        return rng.choice([["missing"], ["empty"], ["null"]]) if not v4 or rng.random() < 0.1 else rng.choice([["missing"], ["empty"]])
    ct = ct_of(declared) if declared else None
    j = ct and (ct[1] == "json" or ct[2] == "json" or ct[1] == "graphql")
    b = ct and (ct[0] in ("image",) or ct[1] in ("octet-stream", "vnd.x"))
    m = rng.random()
    if rng.random() < 0.12:
        j = b = False
    if j or (declared is None and m < 0.5):
        data = list(rng.choice(JTEXTS).encode())
    elif b or (v4 and m > 0.9):
        data = list(rng.choice(BINS)) if m > 0.4 else list(rng.choice(OTEXTS).encode())
    else:
        data = list(rng.choice(OTEXTS).encode()) if m > 0.05 else list(rng.choice(BINS))
    own = None
    if rng.random() < 0.3:
        own = ct if declared and not v4 else ct_of(rng.choice([x for x in CTHEAD if ct_of(x)])) if v4 else None
    return ["present", data, own, rng.choice(["", "", "TEXT", "BINARY", "DEFAULT"]) if v4 else ""]


def rheaders(rng, v4):
    if rng.random() < 0.25:
        return None, None
    out, seen, ct = [], set(), None
    if rng.random() < 0.65:
        ct = rng.choice(CTHEAD)
        out.append([rng.choice(["Content-Type", "content-type", "CONTENT-TYPE"]), [ct]])
    for _ in range(rng.choice([0, 1, 1, 2])):
        n = rng.choice(HNAMES)
        if n.lower() in seen:
            continue
        seen.add(n.lower())
        if n in ("Date", "If-Modified-Since"):
            out.append([n, [DATE]])
        else:
            out.append([n, rng.choice([[rng.choice(HVALS)]] * 3 + [[rng.choice(HVALS), rng.choice(HVALS)], [""]] + ([[], ["a, b"], [" a "]] if v4 or rng.random() < 0.1 else []))])
    return out, ct


def rquery(rng, old):
    if rng.random() < 0.5:
        return None
    out = {}
    for _ in range(rng.choice([1, 1, 2, 3]) if old or rng.random() < 0.9 else 0):
        t = [x for x in QTEXTS if not old or x is None or x.isascii()]
        out[rng.choice([n for n in QNAMES if not old or (n.isascii() and n)])] = [rng.choice(t) for _ in range(rng.choice([1, 1, 2, 3]))]
    return [[k, v] for k, v in out.items()]


def rmembers(rng, most=2):
    return [[n, rng.choice(VALS)] for n in rng.sample(PNAMES, rng.randint(0, most))]


# matching rules and generators that are written and read as themselves
R1 = [[["body", [["$.a", "AND", [["type"]]]]]], [["body", [["$.a.b[*]", "AND", [["regex", "\\d+"]]], ["$.c", "AND", [["min", 1]]]]]], [["header", [["X-Test", "AND", [["regex", "a|b"]]]]]], [["path", [["", "AND", [["regex", "/.*"]]]]]], [["query", [["a", "AND", [["type"]]]]]],
      [["body", [["$.d", "AND", [["date", "yyyy-MM-dd"]]]]], ["header", [["Accept", "AND", [["type"]]]]]]]
R3 = R1 + [[["body", [["$.a", "OR", [["type"], ["null"]]], ["$", "AND", [["equality"]]]]]], [["body", [["$.x", "AND", [["include", "a\"b"], ["decimal"], ["integer"], ["number"]]]]]], [["header", [["X-Test", "AND", [["type"]]], ["x-b", "OR", [["regex", "a"], ["include", "b"]]]]]],
           [["query", [["q", "AND", [["minmax", 1, 3]]]]]], [["body", [["$.t", "AND", [["datetime", "yyyy-MM-dd HH:mm"], ["time", "HH:mm"]]]]]], [["path", [["", "OR", [["regex", "a"], ["regex", "b"]]]]]], [["body", [["$.v", "AND", [["values"]]], ["$.b", "AND", [["boolean"]]]]]]]
R4 = R3 + [[["body", [["$.x", "AND", [["contentType", "image/png"]]]]]], [["status", [["", "AND", [["statusCode", "success"]]]]]], [["body", [["$.y", "AND", [["notEmpty"], ["semver"]]]]]], [["metadata", [["key", "AND", [["regex", "a"]]]]]], [["status", [["", "AND", [["statusCode", [200, 201]]]]]]]]
G3 = [[["body", [["$.a", ["RandomInt", 1, 5]]]]], [["header", [["X-Test", ["Uuid", None]]]]], [["path", [["", ["Regex", "/a/\\d+"]]]]], [["query", [["a", ["RandomString", 4]]]]], [["body", [["$.a", ["DateTime", "yyyy", None]], ["$.b[0]", ["ProviderState", "${id}", "INTEGER"]]]], ["header", [["X", ["RandomHexadecimal", 8]]]]],
      [["status", [["", ["RandomInt", 200, 204]]]]], [["body", [["$", ["Uuid", "simple"]], ["$.x", ["RandomBoolean"]], ["$.z", ["RandomDecimal", 6]]]]]]
GM = [[["body", [["$.a", ["RandomInt", 1, 5]]]]], [["metadata", [["key", ["Uuid", None]]]]], [["body", [["$.a", ["Date", None, "+1 day"]], ["$.b", ["MockServerURL", "http://x/a", ".*(/a)"]]]], ["metadata", [["k", ["RandomString", 3]]]]]]


def rrules(rng, spec, msg):
    if rng.random() < 0.5:
        return []
    r = rng.choice(R1 if spec in ("V1", "V1.1", "V2") else R4 if spec == "V4" else R3)
    if msg:
        r = [c for c in r if c[0] in ("body", "metadata")]
    return r


def rpart(rng, spec, kind):
    v4 = spec == "V4"
    old = spec in ("V1", "V1.1", "V2")
    gens = [] if (old and rng.random() < 0.97) or rng.random() < 0.6 else rng.choice(GM if kind == "contents" else G3)
    d = {"rules": rrules(rng, spec, kind == "contents"), "gens": gens}
    if kind == "contents":
        md, ct = rmembers(rng), None
        if rng.random() < 0.5:
            ct = rng.choice(CTHEAD)
            md.append([rng.choice(["contentType", "contentType", "content-type"]), ct])
        d.update(metadata=md, body=rbody(rng, ct, v4))
        return d
    h, ct = rheaders(rng, v4)
    d.update(headers=h, body=rbody(rng, ct, v4))
    if kind == "request":
        d.update(method=rng.choice(METHODS), path=rng.choice(PATHS), query=rquery(rng, old))
    else:
        d["status"] = rng.choice([200, 200, 404, 0, 100, 503, 65535])
    return d


def rstates(rng, old):
    if old and rng.random() < 0.97:
        return [] if rng.random() < 0.5 else [[rng.choice([x for x in DESCS if x]), []]]
    return [[rng.choice(DESCS), rmembers(rng)] for _ in range(rng.choice([0, 1, 1, 2]))]


def rinter(rng, spec, kind):
    d = {"kind": kind, "id": None, "description": rng.choice(DESCS), "states": rstates(rng, spec in ("V1", "V1.1", "V2"))}
    if kind in ("msg3", "async4"):
        d["contents"] = rpart(rng, spec, "contents")
    elif kind == "sync4":
        d["request"] = rpart(rng, spec, "contents")
        d["response"] = [rpart(rng, spec, "contents") for _ in range(rng.choice([0, 1, 1, 2]))]
    else:
        d["request"] = rpart(rng, spec, "request")
        d["response"] = rpart(rng, spec, "response")
    if rng.random() < 0.1:
        d["id"] = "abc"
    if kind.endswith("4"):
        d.update(key=rng.choice([None, None, "k1", "", "\u00e9"]), transport=rng.choice([None, None, "http", "", "tcp"]), pending=rng.random() < 0.3,
                 comments=[[k, v] for k, v in rng.choice([[], [], [["text", ["a", "b"]]], [["testname", "x"], ["n", 0]], [["o", {"a": None}], ["f", False]], [["e", []]], rmembers(rng)])],
                 plugins=rng.choice([[], [], [["csv", [["a", 1]]]], [["p", []], ["q", [["x", {"y": [1]}]]]], [["p", rmembers(rng)], ["", rmembers(rng)]]]), markup=rng.choice([["", ""], ["", ""], ["# m", "COMMON_MARK"], ["x", ""]] + ([["", "HTML"]] if rng.random() < 0.1 else [])))
    return d


MDS = [["own", {"a": "b"}], ["pactRust", {"x": "1"}], ["pact-rust", {"version": "0.1"}], ["pactSpecification", {"version": "2.0.0"}], ["\u00e9", {}], ["pact-specification", {"version": "1.0"}]]
MD4 = MDS[:2] + [["text", "x"], ["n", None], ["list", [1, {"a": 2}]], ["pactSpecification", {"version": "3"}], ["pactRust", "x"]]


def rpact(rng, spec=None):
    spec = spec or rng.choice(["V1", "V1.1", "V2", "V2", "V3", "V3", "V3", "V4", "V4", "V4", "V4"])
    kind = "v4" if spec == "V4" else "message" if spec == "V3" and rng.random() < 0.4 else "http"
    kinds = ["http4", "async4", "sync4"] if spec == "V4" else ["msg3"] if kind == "message" else ["http3"]
    return {"kind": kind, "consumer": rng.choice(NAMES), "provider": rng.choice(NAMES), "version": rng.choice([spec] * 5 + ["V1", "V3"]) if kind != "v4" else "V4",
            "metadata": rng.sample(MD4 if spec == "V4" else MDS, rng.choice([0, 0, 1, 1, 2])),
            "plugins": rng.choice([[], [], [["csv", "1.2.3", [["a", 1]]], ["x", "", []]], [["csv", "1.2.3", rmembers(rng)]]]) if spec == "V4" else [],
            "interactions": [rinter(rng, spec, rng.choice(kinds)) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]}, spec


def run(c):
    exe = core.build()
    c.model("MC_JsonText")
    c.model("MC_PactJson", cfg="MC_PactJson_deep.cfg" if c.thorough else "MC_PactJson.cfg", timeout=3000)
    rng = c.rng
    ops = []
    # every combination of what decides how one body is kept
    for spec in ("V2", "V3", "V4"):
        for ct in [None] + CTHEAD:
            for b in [list(t.encode()) for t in JTEXTS + OTEXTS] + BINS:
                if not c.thorough and rng.random() > 0.35:
                    continue
                p, _ = rpact(rng, spec)
                kind = rng.choice(["http4", "async4", "sync4"] if spec == "V4" else ["http3"] if spec == "V2" else ["http3", "msg3"])
                i = rinter(rng, spec, kind)
                p["kind"] = {"http3": "http", "msg3": "message"}.get(kind, "v4")
                p["interactions"] = [i]
                x = i["contents"] if "contents" in i else i["response"] if kind != "sync4" else i["request"]
                x["body"] = ["present", b, None, rng.choice(["", "BINARY", "TEXT"]) if spec == "V4" else ""]
                if "headers" in x:
                    x["headers"] = None if ct is None else [["Content-Type", [ct]]]
                else:
                    x["metadata"] = [] if ct is None else [["contentType", ct]]
                ops.append({"op": "pact.round", "args": {"spec": spec, "pact": p}})
    for _ in range(c.n(1200, 20000)):
        p, spec = rpact(rng)
        if rng.random() < 0.04:
            was, spec = spec, rng.choice(["V1", "V2", "V3", "V4"])
            if spec in ("V1", "V2") and was == "V3" and p["kind"] == "http":
                # rules that version has
                for i in p["interactions"]:
                    for x in (i["request"], i["response"]):
                        x["rules"] = rrules(rng, spec, False)
        ops.append({"op": "pact.round", "args": {"spec": spec, "pact": p}})
    c.conform(exe, "Tr_PactJson", ops, encode, corrupt)
    return c.finish()
