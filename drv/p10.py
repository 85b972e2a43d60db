"""P10: provider state expressions (Expr.tla)"""
import json
import core
from core import cs


def txt(c):
    return "".join(map(chr, c))


def num(v):
    return cs(repr(v) if isinstance(v, float) else str(v))


def val(v):
    """a JSON value in the form of Expr.tla"""
    if v is None:
        return ["n"]
    if isinstance(v, bool):
        return ["b", int(v)]
    if isinstance(v, (int, float)):
        return ["d", num(v)]
    if isinstance(v, str):
        return ["s", cs(v)]
    return ["j", cs(json.dumps(v, separators=(",", ":"), ensure_ascii=False, sort_keys=True))]


def res(r, f):
    return [0] if r[0] == 0 else [1, f(r[1])]


def encode(o, r):
    a, v = o["args"], r["v"]
    if o["op"] == "expr.type":
        t = v if r["k"] == "ok" else ["", ""]
        return {"op": "type", "s": cs(a["s"] if isinstance(a["s"], str) else ""), "k": r["k"], "out": cs(t[0]), "back": cs(t[1])}
    e = {"op": "eval", "s": cs(a["s"]), "ctx": [[cs(k), val(x)] for k, x in a["ctx"]], "dt": a["dt"] or "RAW", "k": r["k"]}
    if r["k"] == "ok":
        e["contains"] = v["contains"]
        for k in ("parsed", "wrapped", "json", "gjson"):
            e[k] = res(v[k], val)
        for k in ("text", "gtext", "u16", "u64", "i64", "f64", "gu16"):
            e[k] = res(v[k], cs)
        e["bool"] = v["bool"]
    return e


def corrupt(e):
    if e["op"] == "type":
        e["out"] = e["out"] + [65]
    elif e["wrapped"] == [0]:
        e["wrapped"] = [1, ["s", []]]
    else:
        e["json"] = [0] if e["json"] != [0] else [1, ["n"]]
    return e


VALUES = [None, True, False, 0, 1, 100, -1, 404, 65535, 65536, 65736, 2147483648, 9007199254740991, 9223372036854775807, -9223372036854775808, 18446744073709551615,
          1.5, -0.5, 99.99, 200.0, 65535.9, 65536.5, -1.0, 1e10, 12345678.25, 0.001,
          "", "100", "-5", "+7", "007", "1.5", "-2.75", "1e3", "1E2", ".5", "5.", "abc", "true", "false", "TRUE", " 1", "1 ", "65536", "70000.5", "-0", "1e999", "inf", "NaN", "0x10",
          "99999999999999999999", "9223372036854775808", "18446744073709551615", "-9223372036854775809", "${a}", "}", "{", "$", "\u00e9", "a b",
          [], [1, 2], {"a": 1}, {"b": ["x", None, True]}, ["q\"\\"], {"k": {"z": 1, "a": 2}}]
NAMES = ["a", "b", "ab", "id", "user.name", "{", "$", "a b", "\u00e9", "$a"]
DTS = ["STRING", "INTEGER", "DECIMAL", "FLOAT", "RAW", "BOOLEAN", None]


def rtext(rng):
    k = rng.random()
    if k < 0.2:
        return rng.choice(NAMES)
    if k < 0.4:
        return "${%s}" % rng.choice(NAMES)
    if k < 0.6:
        return "".join(rng.choice(["$", "{", "}", "${", "a", "b", "\u00e9", "${a}", "${b}", "$${", "${}", " "]) for _ in range(rng.randint(0, 7)))
    return "".join(rng.choice(["/", "x}", "{", "$", "$$", "", "\u4e2d", "-"]) + rng.choice(["${%s}" % rng.choice(NAMES), "${%s" % rng.choice(NAMES), "${}"] + ["${a}", "${b}"] * 3) for _ in range(rng.randint(1, 4))) + rng.choice(["", "}", "/end", "$"])


def run(c):
    exe = core.build()
    ops = []
    fixed = [["a", 100], ["ab", "${a}"], ["{a", True]]
    for v in c.model("MC_Expr"):
        ops.append({"op": "expr.eval", "args": {"s": txt(v["s"]), "ctx": fixed, "dt": c.rng.choice(DTS), "nested": c.rng.random() < 0.5}})
    if c.thorough:
        c.model("MC_Expr", cfg="MC_Expr_deep.cfg", timeout=3000)
    c.notes["texts_enumerated_by_tlc"] = len(ops)
    # every value as every type
    for v in VALUES:
        for d in DTS:
            for s in ("a", "${a}", "x${a}"):
                ops.append({"op": "expr.eval", "args": {"s": s, "ctx": [["a", v]], "dt": d, "nested": len(ops) % 2 == 0}})
    for _ in range(c.n(6000, 80000)):
        ctx = [[n, c.rng.choice(VALUES)] for n in c.rng.sample(NAMES, c.rng.randint(0, 6))]
        ops.append({"op": "expr.eval", "args": {"s": rtext(c.rng), "ctx": ctx, "dt": c.rng.choice(DTS), "nested": c.rng.random() < 0.5}})
    for s in ["STRING", "string", "Integer", "RAW", "raw", "decimal", "Float", "boolean", "", "INT", "number", 5, None]:
        ops.append({"op": "expr.type", "args": {"s": s}})
    c.conform(exe, "Tr_Expr", ops, encode, corrupt)
    return c.finish()
