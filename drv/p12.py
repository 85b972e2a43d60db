"""P12: date and time expressions (DateExpr.tla)"""
import core
from core import cs

BASES = [[2000, 1, 1], [2000, 2, 29], [1999, 12, 31], [2023, 1, 31], [2024, 3, 31], [2023, 2, 28], [2024, 2, 29], [2024, 12, 31], [2100, 2, 28], [1970, 1, 1],
         [2020, 4, 12], [2020, 4, 13], [2021, 6, 30], [2022, 10, 31], [2400, 2, 29], [1900, 3, 1], [2019, 5, 15], [1, 1, 1], [9999, 12, 31], [2025, 8, 8]]
TIMES = [0, 36000000, 43199999, 43200000, 86399999, 3723004, 39600000, 46800000]
OFFS = [0, 0, 36000, -18000, 20700, 3601]
DU = ["day", "days", "week", "weeks", "month", "months", "year", "years"]
DOFF = ["day", "week", "month", "year", "fortnight", "mon", "monday", "tues", "tuesday", "wed", "wednesday", "thurs", "thursday", "fri", "friday", "sat", "saturday", "sun", "sunday",
        "jan", "january", "feb", "february", "mar", "march", "apr", "april", "may", "jun", "june", "jul", "july", "aug", "august", "sep", "september", "oct", "october", "nov", "november", "dec", "december"]
TU = ["hour", "hours", "minute", "minutes", "second", "seconds", "millisecond", "milliseconds"]
JUNK = ["x", "days", "fortnight", "next", "last", "now", "+", "-", "5", "am", "o'clock", "@", "\u00e9", "\u4e2d", "tue", "sept", "thur", "noon", "mon", "\U0001f600", "\u00a0", "\r", "1.5", ":", "1st"]
INTS = ["0", "1", "2", "3", "4", "5", "11", "12", "13", "28", "30", "31", "59", "60", "61", "100", "365", "366", "400", "1000", "0007", "24", "48", "1440", "86400", "90061"]
HUGE = ["9999999", "99999999", "999999999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "00000000000000000000000001"]


def sp(rng):
    return rng.choice([" ", " ", " ", "", "  ", "\t", "\n"])


def join(rng, words):
    t = ""
    for w in words:
        gap = sp(rng)
        if t and gap == "" and ((t[-1].isalpha() and w[0].isalpha()) or (t[-1].isdigit() and w[0].isdigit())):
            gap = " "
        t += (gap if t else "") + w
    if rng.random() < 0.1:
        t = sp(rng) + t + sp(rng)
    return t


def number(rng):
    return rng.choice(HUGE) if rng.random() < 0.04 else rng.choice(INTS)


def tail(rng, units, k):
    w = []
    for _ in range(k):
        w += [rng.choice("+-"), number(rng), rng.choice(units)]
    return w


def dateexp(rng):
    k = rng.random()
    n = rng.choice([0, 0, 1, 1, 2, 3, 4])
    if k < 0.3:
        w = [rng.choice(["now", "today", "yesterday", "tomorrow"])] + tail(rng, DU, n)
    elif k < 0.6:
        w = tail(rng, DU, max(n, 1))
    else:
        w = [rng.choice(["next", "last"]), rng.choice(DOFF)] + tail(rng, DU, n)
    return w


def timeexp(rng):
    k = rng.random()
    n = rng.choice([0, 0, 1, 1, 2, 3])
    if k < 0.25:
        w = [rng.choice(["now", "midnight", "noon"])] + tail(rng, TU, n)
    elif k < 0.55:
        w = [str(rng.choice([1, 2, 3, 6, 9, 11, 12, 12, 0, 13]) if rng.random() < 0.9 else rng.choice(HUGE)), "o'clock"] + rng.choice([[], ["am"], ["pm"]]) + tail(rng, TU, n)
    elif k < 0.75:
        w = tail(rng, TU, max(n, 1))
    else:
        w = [rng.choice(["next", "last"]), rng.choice(TU)] + tail(rng, TU, n)
    return w


def mutate(rng, w):
    w = list(w)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        i = rng.randrange(len(w) + 1)
        if k < 0.35 or not w:
            w.insert(i, rng.choice(JUNK))
        elif k < 0.55:
            w.append(rng.choice(JUNK))
        elif k < 0.75:
            del w[min(i, len(w) - 1)]
        elif k < 0.85:
            w[min(i, len(w) - 1)] = rng.choice(JUNK)
        else:
            j = min(i, len(w) - 1)
            x = w[j]
            w[j] = rng.choice([x[:-1] or "x", x + "s", x.upper(), x[:1] + " " + x[1:]])
    return [x for x in w if x]


def text(rng, kind, wrong):
    if rng.random() < 0.01:
        return rng.choice(["", " ", "\t", "@", "@@", "@ ", " @", "now@now@now"])
    d = lambda: join(rng, mutate(rng, dateexp(rng)) if wrong and rng.random() < 0.6 else dateexp(rng))
    t = lambda: join(rng, mutate(rng, timeexp(rng)) if wrong and rng.random() < 0.6 else timeexp(rng))
    if kind == "date":
        return d()
    if kind == "time":
        return t()
    k = rng.random()
    if k < 0.1:
        return d()
    if k < 0.2:
        return "@" + rng.choice(["", " "]) + t()
    return d() + rng.choice(["@", " @ ", " @"]) + t()


def encode(o, r):
    a = o["args"]
    e = {"kind": a["kind"], "s": cs(a["s"]), "base": a["base"], "k": r["k"]}
    if r["k"] == "ok":
        e["out"], e["off"] = r["v"]["v"], r["v"]["off"]
    return e


def corrupt(e):
    if e["k"] == "ok":
        y = e["out"][0]
        if abs(y) > 200000:
            return None
        e["out"] = [y + 2] + e["out"][1:]
    elif e["k"] == "err":
        if not "".join(map(chr, e["s"])).strip(" @"):
            return None
        e["k"], e["out"], e["off"] = "ok", [2001, 1, 1, 0], True
        if any(p.strip() == "" for p in "".join(map(chr, e["s"])).split("@")):
            return None
        if any(sum(c.isdigit() for c in x) > 6 for x in "".join(map(chr, e["s"])).split()):
            return None
    return e


def op(rng, kind, s):
    off = rng.choice(OFFS)
    return {"op": "dt.expr", "args": {"kind": kind, "s": s, "base": rng.choice(BASES) + [rng.choice(TIMES)], "off": off, "utc": rng.random() < 0.5}}


def run(c):
    exe = core.build()
    ops = []
    for kind, cfg in (("date", "MC_DateExpr.cfg"), ("time", "MC_DateExpr_time.cfg")):
        for v in c.model("MC_DateExpr", cfg=cfg):
            s = join(c.rng, v["w"])
            for _ in range(2 if v["ok"] else 1):
                ops.append(op(c.rng, kind, s))
            if kind == "date":
                ops.append(op(c.rng, "datetime", s + "@" + join(c.rng, timeexp(c.rng))))
            else:
                ops.append(op(c.rng, "datetime", join(c.rng, dateexp(c.rng)) + "@" + s))
    if c.thorough:
        c.model("MC_DateExpr", cfg="MC_DateExpr_deep.cfg", timeout=3000)
    c.notes["expressions_enumerated_by_tlc"] = len(ops)
    # every direction and offset from every base
    for d in ("next", "last"):
        for o in DOFF:
            for b in BASES:
                ops.append({"op": "dt.expr", "args": {"kind": "date", "s": d + " " + o, "base": b + [c.rng.choice(TIMES)], "off": 0, "utc": True}})
    for sign in "+-":
        for n in (1, 2, 11, 12, 13, 25):
            for u in DU:
                for b in BASES:
                    ops.append({"op": "dt.expr", "args": {"kind": "date", "s": sign + str(n) + u, "base": b + [c.rng.choice(TIMES)], "off": 0, "utc": True}})
    for h in range(0, 14):
        for x in ("", "am", "pm", "+ 1 hour"):
            for t in TIMES:
                ops.append({"op": "dt.expr", "args": {"kind": "time", "s": "%d o'clock %s" % (h, x), "base": [2000, 1, 1, t], "off": 0, "utc": True}})
    for k in range(c.n(8000, 120000)):
        kind = ("date", "time", "datetime")[k % 3]
        ops.append(op(c.rng, kind, text(c.rng, kind, c.rng.random() < 0.4)))
    c.conform(exe, "Tr_DateExpr", ops, encode, corrupt)
    return c.finish()
