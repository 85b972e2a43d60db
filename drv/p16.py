"""P16: any JSON document as a pact (Load of PactJson.tla)"""
import copy
import json
import core
from p03 import rpact, encode, corrupt as corrupt3

SCALARS = [None, True, False, 0, 1, -1, 3, 200, 65535, 65536, -200, 2147483647, 1.5, -0.25, 12345678901, "", "a", "null", "true", "200", "{}", "[]", "{\"a\":1}", "3.0.0", "4.0", "base64", "aGVsbG8=", "application/json", "TEXT", "a=b&c=%41", "\u00e9\U0001f600", " "]
COMPOUND = [[], {}, [None], [[]], [{}], ["a", None, 1], {"a": 1}, {"": None}, {"name": "x"}, {"content": "x"}, {"content": {"a": 1}, "contentType": "application/json"}, {"content": "aGk=", "encoded": "BASE64"}, {"content": "aGk=", "encoded": True},
            {"content": "x", "encoded": False, "contentTypeHint": "binary"}, {"content": "", "contentType": "text/plain"}, {"content": None}, {"version": "3.0.0"}, {"version": 4}, {"match": "type"}, {"$.a": {"match": "type"}},
            {"body": {"$.a": {"matchers": [{"match": "type"}], "combine": "AND"}}}, {"body": {"$.a": {"type": "Uuid"}}}, [{"name": "n", "version": "1", "configuration": {}}], [{"name": "s", "params": {"a": 1}}], [1, "a", {"name": 1}], {"markup": "m", "markupType": 1}]
VERSIONS = ["1", "1.0.0", "1.1", "1.1.0", "2.0.0", "2", "3", "3.0", "3.0.0", "4", "4.0", "4.1.2", "5", "0", "0.0.1", "", "x", "3.0.0.0", "unknown", 4, 4.0, None, [], {}, True]
KEYS = ["consumer", "provider", "name", "metadata", "metaData", "pactSpecification", "pact-specification", "pactSpecificationVersion", "version", "interactions", "messages", "description", "providerState", "provider_state", "providerStates", "params", "request", "response", "method", "path", "query", "headers", "body",
        "status", "contents", "content", "contentType", "encoded", "contentTypeHint", "matchingRules", "generators", "type", "key", "pending", "comments", "text", "testname", "pluginConfiguration", "plugins", "configuration", "interactionMarkup", "markup", "markupType", "transport", "_id", "x-own", "Content-Type", "pactRust", "requestMatchingRules", "responseMatchingRules"]
TYPES = ["Synchronous/HTTP", "Asynchronous/Messages", "Synchronous/Messages", "Asynchronous/HTTP", "synchronous/http", "", 1, None]


def nodes(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from nodes(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from nodes(x, at + (i,))


def get(v, at):
    for k in at:
        v = v[k]
    return v


def value(rng, key):
    if key == "version" and rng.random() < 0.7:
        return rng.choice(VERSIONS)
    if key == "type" and rng.random() < 0.6:
        return rng.choice(TYPES)
    if key == "status" and rng.random() < 0.5:
        return rng.choice([0, 200, 65535, 65536, -1, 200.0, "200", None, 2147483647, 12345678901])
    return copy.deepcopy(rng.choice(SCALARS if rng.random() < 0.55 else COMPOUND))


def mutate(rng, doc, rules=False):
    """rules: also inside of matching rules and generators, where only crashes are decided"""
    ats = [at for at in nodes(doc) if at and (rules or not {"matchingRules", "generators"} & set(at[:-1]))]
    if rules:
        inner = [at for at in ats if {"matchingRules", "generators"} & set(at)]
        ats = inner or ats
    if not ats:
        return value(rng, "")
    # the upper levels more often: most nodes are deep inside
    most = rng.choice([3, 3, 3, 6, 6, 6, 6, 99, 99, 99])
    at = rng.choice([a for a in ats if len(a) <= most] or ats)
    parent, k = get(doc, at[:-1]), at[-1]
    what = rng.random()
    if what < 0.5:
        parent[k] = value(rng, k)
    elif what < 0.7:
        del parent[k]
    elif isinstance(parent, list):
        parent.insert(k, copy.deepcopy(rng.choice(parent) if what < 0.85 else value(rng, "")))
    elif what < 0.85:
        parent[rng.choice(KEYS)] = parent.pop(k)
    else:
        parent[rng.choice(KEYS)] = value(rng, k)
    return doc


def corrupt(e):
    c = corrupt3(e)
    return c if c and not any(x in e["j"][0] for x in "f") and plain(e["j"]) else None


def plain(v):
    """certainly settled by the specification: no rules, numbers or unknown versions"""
    t = v[0]
    if t == "f":
        return False
    if t == "a":
        return all(plain(x) for x in v[1])
    if t == "o":
        names = ["".join(map(chr, m[0])) for m in v[1]]
        if {"matchingRules", "generators", "requestMatchingRules", "responseMatchingRules", "plugins"} & set(names) or len([n for n in names if n.lower() in ("content-type", "contenttype")]) > 1:
            return False
        return all(plain(m[1]) for m in v[1])
    return t != "s" or len(v[1]) < 12


def tokens(p):
    """the rules and generators of a pact, as read"""
    out = []
    for i in p["interactions"]:
        for x in [i.get("contents"), i.get("request")] + (i["response"] if isinstance(i.get("response"), list) else [i.get("response")]):
            if x:
                out += [t for t in (x["rules"], x["gens"]) if t and isinstance(t[0], str)]
    return out


def renamed(rng, v):
    """a document with known rules under their older names"""
    two = [json.dumps(t) for t in tokens(v["d2"])]
    known = [t for t in tokens(v["d1"]) if json.dumps(t) in two]
    doc = copy.deepcopy(v["j1"])
    done = False
    for i in doc.get("interactions", []):
        for x in [i] + [p for p in (i.get("request"), i.get("response")) if isinstance(p, dict)]:
            if "matchingRules" in x and rng.random() < 0.8:
                done = True
                to = rng.choice(["request", "response"]) if rng.random() < 0.3 else "request" if x is i.get("request") else "response"
                x[to + "MatchingRules"] = x["matchingRules"] if rng.random() < 0.2 else x.pop("matchingRules")
                if rng.random() < 0.1:
                    x["matchingRules"] = rng.choice([{}, None, "a"])
    return {"op": "pact.load", "args": {"json": doc, "known": known}} if done and known else None


def run(c):
    exe = core.build()
    c.model("MC_PactJson")
    rng = c.rng
    seeds = []
    for _ in range(c.n(500, 4000)):
        p, spec = rpact(rng)
        seeds.append({"op": "pact.round", "args": {"spec": spec, "pact": p}})
    seedres = core.execute(exe, seeds)
    docs = [r["v"]["j1"] for r in seedres if r["k"] == "ok"]
    ops = [{"op": "pact.load", "args": {"json": d}} for d in docs[:c.n(200, 2000)]]
    for v in SCALARS + COMPOUND:
        ops.append({"op": "pact.load", "args": {"json": v}})
        for k in ["consumer", "provider", "interactions", "messages", "metadata"]:
            ops.append({"op": "pact.load", "args": {"json": {k: v}}})
        for k in ["interactions", "messages"]:
            for ver in ["2.0.0", "3.0.0", "4.0"]:
                ops.append({"op": "pact.load", "args": {"json": {k: [v], "metadata": {"pactSpecification": {"version": ver}}}}})
                for part in KEYS[11:35]:
                    i = {"type": rng.choice(TYPES[:3]), part: v} if ver == "4.0" else {part: v}
                    if part in ("method", "path", "query", "headers", "body", "status"):
                        i = {"type": TYPES[0], rng.choice(["request", "response"]): {part: v}}
                    if c.thorough or rng.random() < 0.25:
                        ops.append({"op": "pact.load", "args": {"json": {k: [i], "metadata": {"pactSpecification": {"version": ver}}}}})
    for ver in VERSIONS:
        for where in ["pactSpecification", "pact-specification", "pactSpecificationVersion"]:
            for d in rng.sample(docs, 4):
                d = copy.deepcopy(d)
                d["metadata"] = {where: {"version": ver} if where != "pactSpecificationVersion" else ver}
                ops.append({"op": "pact.load", "args": {"json": d}})
    for n in range(c.n(2500, 12000)):
        d = copy.deepcopy(rng.choice(docs))
        rules = n % 5 == 0
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            d = mutate(rng, d, rules)
            if not isinstance(d, (dict, list)):
                break
        ops.append({"op": "pact.load", "args": {"json": d}})
    ops += [o for o in (renamed(rng, r["v"]) for r in seedres if r["k"] == "ok") if o]
    c.conform(exe, "Tr_PactJson", ops, encode, corrupt)
    return c.finish()
