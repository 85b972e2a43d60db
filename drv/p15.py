"""P15: content types, headers and the content type of a part (ContentType.tla)"""
import core
from core import cs
from rulesabs import txt


def opt(x):
    return [False] if x is None else [True, x]


def enc_ct(c):
    return [cs(c[0]), cs(c[1]), [cs(c[2])] if c[2] is not None else [], [[cs(k), cs(v)] for k, v in sorted(c[3])]]


def enc_oct(c):
    return ["none"] if c is None else ["some", enc_ct(c)]


def enc_body(b):
    return b if b[0] != "present" else ["present", b[1], enc_oct(b[2]), b[3]]


def enc_headers(h):
    return [[cs(k), [cs(x) for x in v]] for k, v in h or []]


def ostr(x):
    return opt(None if x is None else cs(x))


def encode(o, r):
    a, v, k = o["args"], r["v"], r["k"]
    op = o["op"][3:]
    e = {"op": op, "k": k}
    ok = k == "ok"
    if op == "parse":
        e["s"] = cs(a["s"])
        if ok:
            e.update(ct=enc_oct(v["ct"]), **{"from": enc_ct(v["from"])})
            if v["ct"]:
                e.update(text=cs(v["text"]), again=enc_oct(v["again"]), base=enc_ct(v["base"]), classes=v["classes"], self=v["self"])
            else:
                e.update(text=[], again=["none"], base=[], classes=[], self=False)
    elif op == "equiv":
        e.update(a=enc_ct(a["a"]), b=enc_ct(a["b"]), out=v if ok else [])
    elif op == "detect":
        e.update(b=a["b"], bytes=enc_oct(v[0]) if ok else [], string=enc_oct(v[1]) if ok else [])
    elif op == "header":
        e.update(name=cs(a["name"]), value=cs(a["value"]), out=[cs(x) for x in v] if ok else [])
    elif op == "body":
        e.update(body=enc_body(a["body"]), c=enc_oct(a["ct"]))
        if ok:
            e.update(text=ostr(v["text"]), display=cs(v["display"]), show=cs(v["show"]), ct=enc_oct(v["ct"]), set=enc_body(v["set"]),
                     ifnot=enc_body(v["ifnot"]), has=v["has"], value=opt(v["value"]), **{"with": enc_body(v["with"])})
    elif op == "from":
        e.update(s=cs(a["s"]), out=[enc_body(v[0]), enc_body(v[1])] if ok else [], json=[True, enc_body(v[2][0]), enc_body(v[2][1]), cs(v[2][2])] if ok and v[2] else [False])
    elif op == "part":
        e.update(kind=a["kind"], body=enc_body(a["body"]), headers=enc_headers(a["headers"]), meta=[[cs(m), cs(x)] for m, x in a["meta"]], name=cs(a["name"]))
        if ok:
            e.update(ct=enc_oct(v["ct"]), own=enc_oct(v["own"]), detected=enc_oct(v["detected"]), lookup=ostr(v["lookup"]),
                     has=[v["has"][0], ostr(v["has"][1])] if v["has"] else [], istext=v["text"])
    else:
        e.update(start=enc_headers(a["start"]), ops=enc_headers(a["ops"]), ask=[cs(x) for x in a["ask"]],
                 out=enc_headers(v[0]) if ok else [], answers=[[x[0], ostr(x[1])] for x in v[1]] if ok else [])
    return e


def corrupt(e):
    op = e["op"]
    if op == "parse":
        e["from"] = [cs("*"), cs("x"), [], []]
        if not e["classes"]:
            e["ct"] = ["some", e["from"]]
        elif len(e["s"]) % 2:
            e["from"] = e["ct"][1]
            e["classes"][3] = not e["classes"][3]
    elif op == "equiv":
        e["out"][0] = not e["out"][0]
    elif op == "detect":
        e["bytes"] = ["some", [cs("text"), cs("other"), [], []]]
    elif op in ("header", "headers"):
        e["out"] = e["out"] + e["out"][:1] if e["out"] else [[cs("x"), []]]
    elif op == "from":
        e["out"][0] = ["null"]
    elif op == "body":
        e["display"] = e["display"] + [46]
    else:
        e["k"] = "panic"
    return e if not (op == "parse" and vague(txt(e["s"]))) else None


def vague(s):
    return '"' in s or s.endswith(("=", "/")) or "=;" in s


def classify(o, r):
    # the mime crate cuts a quoted utf-8 charset that more attributes follow
    if o["op"] == "ct.parse" and r["k"] == "ok" and r["v"]["ct"]:
        s = o["args"]["s"].lower()
        i = s.find(';')
        if s[i:].startswith('; charset="utf-8"') and ["charset", '"utf-'] in r["v"]["ct"][3]:
            return "quoted-charset"
    return None


MAIN = ["application", "text", "image", "multipart", "*", "APPLICATION", "Text", "audio", "video", "font", "message", "fonts", "x", "application!"]
SUB = ["json", "xml", "plain", "*", "hal", "JSON", "Xml", "graphql", "json-rpc", "jsonp", "x-www-form-urlencoded", "html", "vnd.a.b", "atom", "ld", "octet-stream", "xmlx", "x+y", "+json", "javascript", "grAPHql", "my-json", ""]
SUFFIX = [None, None, "json", "xml", "zip", "JSON", "", "xml2", "jsonx"]
ATTRS = ["charset=UTF-8", "charset=utf-8", 'charset="UTF-8"', 'charset="utf-8"', "boundary=a", 'boundary="a b;c=d"', 'q="0.8"', "q=0.8", "Version=1", "a=B", "A=b", 'x="é"', "charset=ISO-8859-1", "a=b=c", "=b", "a", "a=", 'a=""', 'a="b', 'a="b\\"c"',
         "a = b", " ", "", "a=b c", "a=b,c", "é=1", "a=é", 'a="\t"', 'a="b" ', 'a="b"x', "*=1", "a=%41"]


def rct(rng):
    s = rng.choice(MAIN) + rng.choice(["/", "/", "/", "/", "/", "/", "//", "", " /"]) + rng.choice(SUB)
    x = rng.choice(SUFFIX)
    if x is not None:
        s += "+" + x
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        s += ";" + rng.choice(["", "", " ", "  ", "\t"]) + rng.choice(ATTRS)
    if rng.random() < 0.05:
        s = rng.choice([" " + s, s + " ", s + ";", s + "; ", s + ",", s.upper()])
    return s


CTS = [None, ["application", "json", None, []], ["application", "json", None, [["charset", "utf-8"]]], ["text", "plain", None, []], ["application", "xml", None, []], ["text", "xml", None, []], ["application", "octet-stream", None, []],
       ["image", "png", None, []], ["application", "hal", "json", []], ["application", "vnd.a", "xml", []], ["image", "svg", "xml", []], ["*", "*", None, []], ["application", "x-www-form-urlencoded", None, []],
       ["text", "html", None, [["q", "a b"]]], ["application", "graphql", None, []], ["multipart", "form-data", None, [["boundary", "x"]]], ["application", "vnd.a", "json", [["charset", "utf-8"]]], ["application", "xml", None, [["charset", "utf-8"]]],
       ["text", "xml", None, [["charset", "utf-16"]]], ["application", "vnd.a", "json", []]]
TEXTS = ["", "a", "hello", "{}", "{ }", '{"a": 1}', '{"_a": 1}', '{"": 1}', '{ "\u00e9": 1}', "{a: 1}", "[", "[1, 2]", " [1]", '"text"', "true", "false", "null", "nullable", "12", "-1", " 1", "1.5", "tru", "<a>", "<a/>", "<a:b xmlns:a=\"u\">", "<?xml version='1.0'?>", "<?xml   version", "<?xml encoding",
         "\n\t <?xml version=\"1.0\"?><a/>", "<!DOCTYPE html>", "<!doctype HTML><html>", " <!doctype html>", "<html>", "<HTML>", " <html>", "\n<Html><body>", "<html lang='en'>", "<!-- c --><html>", "x<html>", "a <HTML>", "text <!DOCTYPE html>", "<", "< a>", "<\u00e9>", "<1>", "<_>",
         "\u00a0{}", "\u3000<a>", "\u2028true", "\ufeff{}", "\x00", "caf\u00e9", "\u65e5\u672c\u8a9e\u306e\u6587\u7ae0\u3067\u3059\u3002\u65e5\u672c\u8a9e\u306e\u6587\u7ae0", "{\"name\": \"\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\"}",
         "a" * 31 + "\u00e9", "a" * 30 + "\U0001f600", "a" * 29 + "\U0001f600x", " " * 33 + "{}", " " * 31 + "{}", "<a>" + "b" * 40, "\x7f", "a,b", "key=value&x=y"]
BYTES = [[0], [255], [0, 1, 10, 15, 16], [195], [195, 40], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xed, 0xa0, 0x80], [123, 34, 255], [0x89, 0x50, 0x4e, 0x47], list(range(40)), [97] * 31 + [195], [97] * 31 + [195, 169], [97] * 31 + [195, 40], [97] * 31 + [255, 97],
         [97] * 30 + [0xe2, 0x82, 0xac], [97] * 30 + [0xe2, 0x82], [97] * 29 + [0xf0, 0x9f, 0x98, 0x80], [97] * 32 + [255], [97] * 31 + [0xc0, 0x80], [97] * 30 + [0xed, 0xa0, 0x80]]


def rbytes(rng):
    if rng.random() < 0.75:
        return list(rng.choice(TEXTS).encode())
    b = list(rng.choice(BYTES))
    return b + [rng.choice([0, 9, 15, 16, 97, 128, 255])] * rng.randint(0, 3)


def rbody(rng):
    if rng.random() < 0.15:
        return [rng.choice(["missing", "empty", "null"])]
    return ["present", rbytes(rng), rng.choice(CTS) if rng.random() < 0.5 else None, rng.choice(["", "", "", "TEXT", "BINARY", "DEFAULT"])]


NAMES = ["content-type", "Content-Type", "CONTENT-TYPE", "Accept", "accept", "X-Test", "x-test", "Date", "Content-Typ", "content-type ", "Set-Cookie"]
VALUES = ["text/plain", "application/json", "application/json; charset=utf-8", "APPLICATION/HAL+JSON", "image/png", "not a type", "", "text/html, text/plain", "application/xml", "*/*", "b"]


def rheaders(rng, most=3, empty=True):
    out, seen = [], set()
    for _ in range(rng.randint(0, most)):
        n = rng.choice(NAMES)
        if n.lower() in seen:
            continue
        seen.add(n.lower())
        out.append([n, [rng.choice(VALUES)] * rng.choice([1, 1, 1, 1] + ([0] if empty else []) + [2])])
        if n.lower() == "content-type" and len(out[-1][1]) == 2:
            out[-1][1] = [rng.choice(VALUES), rng.choice(VALUES)]
    return out


def run(c):
    exe = core.build()
    c.model("MC_ContentType", cfg="MC_ContentType_deep.cfg" if c.thorough else "MC_ContentType.cfg", timeout=3000)
    ops = []
    for v in c.model("MC_ContentType", cfg="MC_ContentType_vec.cfg"):
        s = txt(v["s"])
        ops.append({"op": "ct.parse", "args": {"s": s}} if v["kind"] == "ct" else {"op": "ct.detect", "args": {"b": list(s.encode())}})
    if not c.thorough and len(ops) > 9000:
        ops = c.rng.sample(ops, 9000)
    c.notes["vectors_enumerated_by_tlc"] = len(ops)
    rng = c.rng
    for m in MAIN:
        for s in SUB:
            for x in SUFFIX:
                ops.append({"op": "ct.parse", "args": {"s": "%s/%s%s" % (m, s, "+" + x if x is not None else "")}})
    for a in ATTRS:
        for b in [""] + ATTRS:
            for p in [";", "; "]:
                ops.append({"op": "ct.parse", "args": {"s": "text/plain" + p + a + (";" + b if b else "")}})
    for _ in range(c.n(2500, 40000)):
        ops.append({"op": "ct.parse", "args": {"s": rct(rng)}})
    for t in TEXTS:
        ops.append({"op": "ct.from", "args": {"s": t}})
    cts = [x for x in CTS if x]
    for x in cts:
        for y in cts:
            ops.append({"op": "ct.equiv", "args": {"a": x, "b": y}})
    for t in [list(t.encode()) for t in TEXTS] + BYTES:
        for pre in ([], [32], [10, 9]):
            for post in ([], [32], [255], [195, 169] * 16):
                ops.append({"op": "ct.detect", "args": {"b": pre + t + post}})
    for name in NAMES + ["Accept-Datetime", "IF-MODIFIED-SINCE", "if-unmodified-since", "Expires", "Retry-After", "last-modified", "user-agent", "User-Agent", "Vary", "Allow", "Cookie", "", "\u00c9", "Dates"]:
        for value in ["a", "a,b", " a , b ", "Mon, 01 Dec 2008 01:15:39 GMT", ",", "a,", "", " ", "a;q=0.1, b", "\u00e9,\u3000x", "\"a,b\""]:
            ops.append({"op": "ct.header", "args": {"name": name, "value": value}})
    for _ in range(c.n(1500, 20000)):
        ops.append({"op": "ct.body", "args": {"body": rbody(rng), "ct": rng.choice(CTS)}})
        kind = rng.choice(["req3", "resp3", "req4", "resp4", "msg3", "msg4"])
        meta = [[rng.choice(["contentType", "contentType", "content-type", "Content-Type", "ContentType"]), rng.choice(VALUES)]] if rng.random() < 0.6 else []
        if rng.random() < 0.5:
            meta.append([rng.choice(["key", "contentTyp", "type"]), "application/json"])
        ops.append({"op": "ct.part", "args": {"kind": kind, "body": rbody(rng), "headers": rheaders(rng) if rng.random() < 0.8 else None, "meta": meta, "name": rng.choice(NAMES)}})
    for _ in range(c.n(400, 4000)):
        ops.append({"op": "ct.headers", "args": {"kind": rng.choice(["req", "resp"]), "start": rheaders(rng) if rng.random() < 0.7 else None,
                                                 "ops": [[rng.choice(NAMES), [rng.choice(VALUES) for _ in range(rng.choice([0, 1, 1, 2]))]] for _ in range(rng.randint(1, 4))], "ask": NAMES[:7]}})
    c.conform(exe, "Tr_ContentType", ops, encode, corrupt, classify=classify)
    return c.finish()
