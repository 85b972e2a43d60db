"""P13: patterns of dates and times (DatePattern.tla)"""
import re
import core
from core import cs
import p12

ZONES = {"UTC": 0, "<+1030>-10:30": 37800, "<-0330>3:30": -12600, "<+14>-14": 50400, "<+0545>-5:45": 20700}
MOST = {**{c: 1 for c in "ac"}, **{c: 2 for c in "hHkKmsdwWFqV"}, **{c: 4 for c in "Oz"}}
LETTERS = "GyYuMLDdQqwWFEecahHkKmsSnANxXZOV"
SEPS = [" ", "-", "/", ":", ".", ", ", "'T'", "''", "'o''clock'", "'\u00e9\U0001f600'", "_", "@", "#", "\u4e2d", "*", "+", "'{'"]
DAYS = [[2024, 2, 29], [2023, 12, 31], [2000, 1, 1], [2024, 12, 31], [1999, 6, 9], [1, 1, 1], [9999, 12, 31], [2026, 1, 3], [2021, 1, 3], [1970, 11, 10], [987, 10, 5], [2023, 8, 28], [2020, 3, 1], [2022, 5, 7]]
SECS = [0, 1, 59, 3599, 3600, 43199, 43200, 43201, 46799, 46800, 86399, 86340, 36061, 80000]
NANOS = [0, 1, 7000000, 123456789, 999999999, 10, 100000000, 120000000, 999999]
COMMON = ["yyyy-MM-dd", "yyyy-MM-dd'T'HH:mm:ss", "yyyy-MM-dd'T'HH:mm:ss.SSSXXX", "yyyy-MM-dd'T'HH:mm:ssZ", "HH:mm:ss", "hh:mm a", "EEE, dd MMM yyyy HH:mm:ss Z", "EEEE, MMMM d, yyyy", "dd/MM/yy", "yyyyMMdd", "yyyyMMddHHmmss",
          "d MMM", "MM-dd", "yyyy-LL-dd", "dd.MM.yyyy", "'Week' w 'of' Y", "QQQQ 'of' yyyy", "yyyy-MM-dd HH:mm:ss.SSSSSS", "yyyy-MM-dd'T'HH:mm:ss.SSSSSSSSSxxx", "k:mm", "K:mm a", "yyyy-DDD", "H 'o''clock'", "MMM dd, yyyy h:mm:ss a", "yyyy-MM-dd V", "uuuu-M-d"]
BAD = ["", "'", "'abc", "yyyy-MM-dd'T", "b", "yyyyj", "yyyy-MM-ddTHH:mm", "HHH", "mmm", "aa", "cc", "VVV", "OOOOO", "MMMMMM", "EEEEEE", "{", "yyyy[", "yyyy}", "dd]", "S" * 25, "y" * 25, "u" * 60, "'" * 3, "''", "''''", "'" * 5, "ddd", "xxxxxx", "XXXXXX", "ZZZZZZ", "sss", "yyyy-MM-dd\u00e9", "\u00e9", "1 yyyy", "GGGGGG", "LLLLLL", "qqq", "QQQQQQ", "D" * 12, "A" * 20, "N" * 20, "n" * 20, "\n", "y\ty", "'''a'", "'a'''", "'a''", "''a", "a''", "yyyy'-'MM", "yyyy''MM", "h'''m"]


def fmt(rng, p, exp=None):
    tz = rng.choice(list(ZONES))
    off = ZONES[tz]
    sec, nanos = rng.choice(SECS) if rng.random() < 0.7 else rng.randrange(86400), rng.choice(NANOS)
    day = rng.choice(DAYS)
    if exp:
        nanos = nanos // 1000000 * 1000000
    kind = rng.choice(["date", "time", "datetime"])
    via = rng.choice(["text", "value", "clock", "clock-value", "clock-string"])
    if day[0] < 1900 or day[0] > 2200:
        via = rng.choice(["text", "value"])
    if via == "clock-string" and (p is None or exp):
        via = "clock"
    return (tz, {"op": "dt.format", "args": {"p": p, "exp": exp, "kind": kind, "via": via, "at": day + [sec, nanos, off],
                 "base": "%04d-%02d-%02dT%02d:%02d:%02d.%09d%s%02d:%02d" % (*day, sec // 3600, sec // 60 % 60, sec % 60, nanos, "-" if off < 0 else "+", abs(off) // 3600, abs(off) // 60 % 60)}})


def val(p, v):
    return {"op": "dt.validate", "args": {"p": p, "v": v}}


def rnd_pattern(rng):
    out = ""
    for i in range(rng.choice([1, 2, 2, 3, 4, 5, 7])):
        c = rng.choice(LETTERS)
        n = rng.randint(1, min(MOST.get(c, 5) + (rng.random() < 0.03), 5))
        sep = rng.choice(SEPS) if (out and rng.random() < 0.93) or rng.random() < 0.1 else ""
        if sep == "" and out.endswith(c):
            sep = " "
        out += sep + c * n
    if rng.random() < 0.1:
        out += rng.choice(SEPS)
    return out


def mutate(rng, v):
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(v) + 1)
        k = rng.random()
        if k < 0.25:
            v = v[:i] + rng.choice("0123456789") + v[i:]
        elif k < 0.5:
            v = v[:i] + rng.choice("0123456789") + v[i + 1:]
        elif k < 0.65:
            v = v[:i] + v[i + 1:]
        elif k < 0.75:
            v = v.upper() if rng.random() < 0.5 else v.lower()
        elif k < 0.85:
            v = v[:i] + rng.choice(" -+:.TZz/xA'\u00e9\U0001f600\u0664") + v[i:]
        elif k < 0.95:
            v = re.sub(r"\d+", lambda m: rng.choice([m.group(0), "0" + m.group(0), m.group(0).lstrip("0"), str(int(m.group(0)) + 1) if m.group(0).isascii() else m.group(0), "00", "99", "13", "31", "24", "60", "366", "12"]), v, count=rng.choice([1, 0]))
        else:
            v = v[:i]
    return v


def encode(o, r):
    a = o["args"]
    if o["op"] == "dt.validate":
        return {"op": "validate", "p": cs(a["p"]), "hasp": True, "v": cs(a["v"]), "k": r["k"]}
    e = {"op": "format", "hasp": a["p"] is not None, "p": cs(a["p"] or ""), "exp": cs(a["exp"] or ""), "kind": a["kind"], "base": a["at"], "k": r["k"]}
    if r["k"] == "ok":
        e["out"], e["valid"] = cs(r["v"]["out"]), bool(r["v"]["valid"])
    return e


def corrupt(e):
    if e["op"] == "validate" or e["exp"]:      # (years out of range after an expression are not judged)
        return None
    if e["k"] == "ok":
        if not e["out"]:
            return None
        e["out"] = e["out"] + [88]
    else:
        e["k"], e["out"], e["valid"] = "ok", cs("2000-01-01"), True
    return e


def unquoted(p):
    return re.sub(r"'[^']*'", "", p)


def classify(o, r):
    p = o["args"]["p"] or ""
    v = r["v"]["out"] if o["op"] == "dt.format" and r["k"] == "ok" else o["args"].get("v", "")
    if o["op"] == "dt.format" and r["k"] == "ok" and "z" in unquoted(p) and "zzzzz" not in p:
        return "zone-name"
    refused = (r["k"] == "err") if o["op"] == "dt.validate" else (r["k"] == "ok" and r["v"]["valid"] is False)
    if refused and "D" in unquoted(p) and re.search(r"35[7-9]|36[0-6]", v):
        return "day-of-year"


def run(c):
    exe = core.build()
    rng = c.rng
    one = [("".join(map(chr, v["p"]))) for v in c.model("MC_DatePattern")]
    two = [("".join(map(chr, v["p"]))) for v in c.model("MC_DatePattern", cfg="MC_DatePattern_two.cfg")]
    if c.thorough:
        c.model("MC_DatePattern", cfg="MC_DatePattern_deep.cfg", timeout=3000)
    else:
        two = rng.sample(two, 3000)
    pats = one + two + COMMON + BAD
    formats = [fmt(rng, p) for p in one for _ in range(c.n(8, 60))] + [fmt(rng, p) for p in two + BAD]
    formats += [fmt(rng, p) for p in COMMON for _ in range(c.n(20, 200))]
    formats += [fmt(rng, None) for _ in range(60)] + [fmt(rng, p) for p in ("z", "zzz", "HH:mm z")]
    formats += [fmt(rng, c0 * n) for c0 in LETTERS + "zbB" for n in range(1, 8)]
    for _ in range(c.n(2500, 60000)):
        formats.append(fmt(rng, rnd_pattern(rng)))
    for _ in range(c.n(500, 5000)):     # together with an expression of the kind of the generator
        f = fmt(rng, rng.choice(COMMON + [None]), "x")
        k = f[1]["args"]["kind"]
        f[1]["args"]["exp"] = p12.text(rng, k, rng.random() < 0.1).strip() or "now"
        if k == "datetime" and any(x.strip() == "" for x in f[1]["args"]["exp"].split("@")):
            f[1]["args"]["exp"] = "tomorrow @ noon"
        formats.append(f)
    outs = []
    for tz in ZONES:
        mine = [o for z, o in formats if z == tz]
        res = c.conform(exe, "Tr_DatePattern", mine, encode, corrupt, classify, env={"TZ": tz})
        outs += [(o["args"]["p"], r["v"]["out"]) for o, r in zip(mine, res) if r["k"] == "ok" and o["args"]["p"] is not None]
    ops = [val(p, v) for p in pats for v in ("", "2024-02-29", "x", "12", "'", "''", "'a")]
    for p in one:     # the bounds of every field
        if "'" in p:
            continue
        for n in list(range(0, 70)) + [99, 100, 355, 356, 357, 360, 364, 365, 366, 367, 399, 999, 1000, 2024, 9999, 10000, 123456, 99999999]:
            ops.append(val(p, str(n)))
            if n < 100:
                ops.append(val(p, "%02d" % n))
                ops.append(val(p, "%03d" % n))
    texts = ["Jan", "MAR", "december", "May", "june", "Sept", "Monday", "tue", "WEDNESDAY", "thurs", "Fri", "AM", "pm", "a.m.", "ad", "BC", "bce", "Q1", "q4", "Q5", "Q0", "1st quarter", "3RD QUARTER", "2st quarter", "5th quarter",
             "Z", "z", "+0", "+00", "+00:00", "-08", "-0830", "-08:30", "-083015", "-08:30:15", "+18", "+1800", "+18:59", "+19", "+2400", "-1", "+1:30", "+-08:30", "+", "08:30", "+08:60", "GMT", "UTC", "GMT+8", "UTC-08:00", "GMT+08:00", "gmt+8", "GMT+", "UT+1",
             "UTC+08", "GMT+8:30", "GMT-0830", "Europe/Warsaw", "America/Los_Angeles", "Etc/GMT+5", "Asia/Ho_Chi_Minh", "America/Port-au-Prince", "Europe/Nowhere", "europe/warsaw", "PDT", "AEST", "pdt", "XYZQ", "\u00e9", "\u0661", " 1", "1 ", "-1", "+1", "1.0", "\U0001f600"]
    for p in one + ["z", "zz", "zzz", "zzzz"]:
        for t in texts:
            # a name that follows another zone's is only judged where the pattern takes zone ids or names
            if not (p.startswith("z") and t == "UTC"):
                ops.append(val(p, t if "'" not in p else "T" + t))
    for c0 in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":     # every number of every letter
        for n in range(1, 8):
            for t in ["PDT", "UTC", "1", "+08:00", "AM", "2024", "01"]:
                if not (c0 == "z" and t == "UTC"):
                    ops.append(val(c0 * n, t))
    years = [1, 4, 100, 400, 1900, 1999, 2000, 2023, 2024, 2100, 9999]
    for p, f in (("yyyy-MM-dd", "%04d-%02d-%02d"), ("yyyy-LL-dd", "%04d-%02d-%02d"), ("uuuu-M-d", "%04d-%d-%d"), ("yyyyMMdd", "%04d%02d%02d")):
        for y in years:
            for m in range(0, 14):
                for d in (0, 1, 28, 29, 30, 31, 32):
                    ops.append(val(p, f % (y, m, d)))
    for m in range(0, 14):
        for d in range(0, 33):
            ops += [val("MM-dd", "%02d-%02d" % (m, d)), val("d/M", "%d/%d" % (d, m)), val("MM-dd-yy", "%02d-%02d-24" % (m, d)), val("MM-dd-yy", "%02d-%02d-23" % (m, d))]
    for i, mon in enumerate("January February March April May June July August September October November December".split()):
        for d in (28, 29, 30, 31):
            for y in (1900, 2000, 2023, 2024):
                ops += [val("dd MMM yyyy", "%d %s %d" % (d, mon[:3], y)), val("MMMM d, yyyy", "%s %d, %d" % (mon, d, y)), val("d MMM", "%d %s" % (d, mon[:3].upper()))]
    for h in range(0, 26):
        for p in ("HH:mm", "kk:mm", "hh:mm", "KK:mm", "H:mm a", "h:mm a"):
            ops.append(val(p, ("%d:30" if len(p) < 5 else "%02d:30") % h + (" PM" if p[-1] == "a" else "")))
    for q in ("yyyy-MM-ddTHH:mm", "HH:mm:ss.SSS", "HH:mm:ss"):
        ops += [val(q, x) for x in ("23:59:60", "23:59:61", "24:00:00", "12:60:00", "12:00:00.5", "12:00:00.5000", "12:00:00.", "12:00:00.123")]
    safe = [(p, v) for p, v in outs if not set("Vz") & set(unquoted(p))]
    for _ in range(c.n(7000, 150000)):
        p, v = rng.choice(safe)
        ops.append(val(p, mutate(rng, v) if rng.random() < 0.85 else v))
    for _ in range(c.n(500, 3000)):
        p = rng.choice(safe)[0]
        v = rng.choice(safe)[1]
        ops.append(val(p, v))
    c.conform(exe, "Tr_DatePattern", ops, encode, corrupt, classify)
    return c.finish()
