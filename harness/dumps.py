"""Register dumps and loads of the real cache, validated against Dumps.tla."""
import json
import random

import core
import vt  # noqa: F401
from poll import report
from redact import CLS, rand_cache

from givenergy_modbus.model.register import Register
from givenergy_modbus.model.register_cache import RegisterCache, parse_compact, to_compact

codes = lambda s: [ord(c) for c in s]  # noqa: E731
clamp = lambda v: max(-2, min(int(v), 1 << 30))  # noqa: E731


def cells(c):
    """-> ([[bank, index, value]], odd): odd if something in there is no register or no word."""
    out, odd = [], False
    for r, v in dict(c).items():
        if not isinstance(r, Register) or not (v is None or type(v) is int) or type(r._idx) is not int:
            odd = True
            continue
        out.append([type(r).__name__, clamp(r._idx), -1 if v is None else clamp(v)])
    return out, odd or not isinstance(c, RegisterCache)


def table(caches):
    out, odd = [], not isinstance(caches, dict)
    for d, c in caches.items():
        rows, o = cells(c)
        odd |= o or type(d) is not int
        out += [[d, *r] for r in rows]
    return out, odd


def entries(text):
    """The document's entries as they stand; (is it an object, entries)."""
    class Obj(list):
        pass
    doc = json.loads(text, object_pairs_hook=Obj)
    top = isinstance(doc, Obj)
    out = []
    for k, v in dict(doc).items() if top else []:      # of a repeated key JSON keeps the last value
        kind, n = "other", 0
        if v is None:
            kind = "null"
        elif isinstance(v, bool):
            pass
        elif isinstance(v, int) or isinstance(v, float) and v == v and abs(v) != float("inf") and v == int(v):
            kind, n = "int", clamp(v)
        out.append({"key": codes(k), "kind": kind, "v": n})
    return top, out


# ---- JSON ------------------------------------------------------------------------------------------
def cache(rng):
    if rng.random() < 0.3:
        return rand_cache(rng)
    c = RegisterCache()
    for _ in range(rng.choice([0, 1, 2, 5, 20, 70])):
        base = rng.choice([0, 0, 58, 60, 119, 120, 300, 1795, 9999, 65534, rng.randrange(65536)])
        k = CLS[rng.choice(["HR", "IR", "MR"])]
        for j in range(rng.choice([1, 1, 2, 3, 60])):
            if base + j <= 65535:
                c[k(base + j)] = rng.choice([0, 1, 9, 10, 255, 256, 4096, 32768, 65535, rng.randrange(65536)])
    if c and rng.random() < 0.3:
        for r in rng.sample(list(c), min(len(c), 3)):
            c[r] = None
    return c


def own(rng):
    c = cache(rng)
    e = {"k": "json", "cache": cells(c)[0], "entries": [], "back": [], "out": "raised"}
    try:
        text = c.json()
        e["entries"] = entries(text)[1]
        b = RegisterCache.from_json(text)
        e["back"], odd = cells(b)
        e["out"] = "odd" if odd else "ok"
    except Exception as x:  # noqa: BLE001
        e["exc"] = repr(x)[:200]
    return e


def key(rng):
    b = rng.choice(["HR", "IR", "MR", "HR", "IR", "XR", "hr", "", "HRX", "H", "HR ", " HR", "HR_"])
    n = rng.choice(["0", "1", "12", "007", "65535", "65536", "99999999", "-1", "1.5", "", "x", "1x", "1_0", " 5", "5 ", "+5", "0x10", "1)", "(1", "5:"])
    f = rng.choice(["{b}({n})", "{b}({n})", "{b}:{n}", "{b}:{n}", "{b}:{n}", "{b}({n}", "{b}({n}]", "{b}{n}", "({b}:{n})", "{b}_{n}", "{b}:({n})", "{b}({n}):1", "{b}::{n}", "{b}({n}))", "{b}:{n}\n", "{b}({n})x"])
    return f.format(b=b, n=n)


VALUES = ["0", "1", "65535", "65536", "-1", "5.0", "5.5", "1e3", "1e400", "-1e400", "NaN", "null", "true", "false", '"7"', '""', '"x"', "[]", "[1]", "{}", '{"HR:9": 4}', "99999999999999999999", "-0.0", "1e-9", "3e4",
          "65535.0", "65535.5", "70000.0"]


def document(rng):
    x = rng.random()
    if x < 0.12:
        return rng.choice(["[]", "null", "5", '"ab"', "true", "[1, 2]", '[["HR:1", 5]]', '[[1, 2], [3, 4]]', '[{"HR:1": 1, "IR:2": 2}]', '["ab", "cd"]', '["HR"]', '[{"HR:1": 1}]', "0.5", '""'])
    if x < 0.2:
        return rng.choice(["", "{", "{]", "HR:1", '{"HR:1": }', '{"HR:1": 1', "nonsense", '{"HR:1" 1}', '{"HR:1": 1} x'])
    es = []
    for _ in range(rng.choice([0, 1, 1, 2, 4, 9])):
        k = key(rng) if rng.random() < 0.7 else f"{rng.choice(['HR', 'IR', 'MR'])}{rng.choice(['({})', ':{}']).format(rng.choice([0, 5, 5, 65535]))}"
        v = rng.choice(VALUES) if rng.random() < 0.7 else str(rng.randrange(65536))
        es.append(f"{json.dumps(k)}: {v}")
    return "{" + rng.choice([", ", ",", " ,\n"]).join(es) + "}"


def load(text):
    e = {"k": "load", "top": False, "entries": [], "got": [], "odd": False, "out": "raised"}
    try:
        e["top"], e["entries"] = entries(text)
        valid = True
    except ValueError:
        valid = False
    try:
        c = RegisterCache.from_json(text)
        e["out"] = "ok"
        e["got"], e["odd"] = cells(c)
    except (ValueError, TypeError) as x:
        e["out"], e["exc"] = "refused", repr(x)[:200]
    except Exception as x:  # noqa: BLE001
        e["exc"] = repr(x)[:200]
    e["text"] = text[:300] if valid else "(not JSON) " + text[:300]
    return e


# ---- the compact form ---------------------------------------------------------------------------------
def caches(rng):
    return {d: cache(rng) for d in rng.sample([0x11, 0x31, 0x32, 0x33, 1, 8, 0, 255, 0x50, 0x70, 0xA0, 256, 4096], rng.randint(0, 4))}


def write(rng):
    cs = caches(rng)
    e = {"k": "write", "caches": table(cs)[0], "lines": [], "back": []}
    text = to_compact(cs)
    e["lines"] = [codes(x) for x in text.split("\n")][:-1] if text.endswith("\n") or not text else [codes(x) for x in text.split("\n")] + [[]]
    e["back"] = table(parse_compact(text))[0]
    return e, text


def parse(text, nl="\n"):
    e = {"k": "parse", "lines": [codes(x) for x in text.split("\n")], "got": [], "odd": False, "out": "raised"}
    try:
        got = parse_compact(text.replace("\n", nl))
        e["got"], e["odd"] = table(got)
        e["out"] = "ok"
    except Exception as x:  # noqa: BLE001
        e["exc"] = repr(x)[:200]
    return e


def row(rng, legacy):
    n = rng.choice([1, 1, 2, 3, 4, 60])
    base = rng.choice([0, 60, 120, 59, 7, 65535, 65534, 65476, rng.randrange(65536), 99999, 65536])
    b = rng.choice(["HR", "IR", "MR"])
    h = "".join(rng.choice("0123456789abcdefABCDEF") if rng.random() < 0.7 else "0" for _ in range(4 * n))
    x = rng.random()
    if x < 0.1:
        h = h[: rng.randrange(len(h))]
    elif x < 0.15:
        h += rng.choice(["0", "00", "0000", "g", " 0", "x"])
    elif x < 0.2:
        n += rng.choice([1, -1, 60])
    elif x < 0.24:
        b = rng.choice(["XR", "hr", "H", "HRR", "", "IR "])
    if legacy:
        s = f"{b}({base},{n}):{rng.choice([' ', ' ', '  ', '', chr(9)])}{h}"
    else:
        s = f"{rng.choice(['0x11', '0x32', '0x32', '0x7', '0xA0', '0xff', '0x100', '0X11', '11', 'x11', '0x', '0x1g', '0x0011'])}:{b}({base},{n}){rng.choice([' ', ' ', ' ', '  ', '', ':', ': '])}{h}"
    if x > 0.93:
        s = s.replace(rng.choice("(,):x "), rng.choice(["", " ", "((", "-"]), 1)
    out = [s]
    while rng.random() < 0.3 and len(out[-1]) > 14:
        p = rng.randrange(10, len(out[-1]))
        out[-1:] = [out[-1][:p], out[-1][p:]]
    return out


def paste(rng, text):
    """What a person does to a dump, or something like a dump."""
    ls = text.split("\n") if text and rng.random() < 0.5 else []
    if len(ls) > 12:
        ls = rng.sample(ls, 12)
    legacy = rng.random() < 0.4
    for _ in range(rng.randint(0, 8)):
        at = rng.randint(0, len(ls))
        x = rng.random()
        if x < 0.5:
            ls[at:at] = row(rng, legacy and rng.random() < 0.8)
        elif x < 0.65:
            ls.insert(at, rng.choice(["# HR probe @ device 0x11", "# IR probe @ device 0x32 (battery)", "#MR probe  @ device 0x01 done", "# H-R probe @ device 0x33", "# HR probe at device 0x33", "#  IR  probe @ device 0xzz",
                                      "# HR probe @ device 33", "# probe @ device 0x33", "## HR probe @ device 0x33", "x # HR probe @ device 0x33", "# HR probe @ devices 0x33", "# HR probe @device 0x33", "# HR probe @ device 0x1f2g"]))
        elif x < 0.85:
            ls.insert(at, rng.choice(["# a comment", "Probing HR(0,60) ...", "..", "", "0x32:HR(60,60) ..", "deadbeef", "0000", "00", "abcdefg", "HR(0,60)", "0x11:HR(0,1) 0001 0002", "0x11:HR(0,0) ", "0x11:HR(5,0) 00"]))
        elif ls:
            i = rng.randrange(len(ls))
            p = rng.randint(0, len(ls[i]))
            ls[i:i + 1] = rng.choice([[ls[i][:p], ls[i][p:]], [ls[i][:p]], ["  " + ls[i] + "\t "], [ls[i].upper()], [], [ls[i], ls[i]]])
    if rng.random() < 0.2:
        rng.shuffle(ls)
    return "\n".join(ls)


def history(rng):
    ev = []
    for _ in range(6):
        ev += [own(rng), load(document(rng)), load(document(rng)), load(document(rng))]
        w, text = write(rng)
        ev.append(w)
        for _ in range(4):
            ev.append(parse(paste(rng, text), rng.choice(["\n", "\n", "\r\n"])))
        if rng.random() < 0.3:
            ev.append(parse(text))
    return {"ev": ev}


def run(chk):
    rng = random.Random(chk.seed * 65063 + 5)
    q = chk.quick
    traces = [history(rng) for _ in range(120 if q else 4000)]
    chk.leg("driver", events=sum(len(t["ev"]) for t in traces), loaded=sum(e["out"] == "ok" for t in traces for e in t["ev"] if e["k"] == "load"),
            read=sum(bool(e["got"]) for t in traces for e in t["ev"] if e["k"] == "parse"))
    mc = "CONSTANTS\n Wide = {}\n Edits = {}\nSPECIFICATION Spec\nINVARIANTS RoundTrip Shape Json\n"
    jobs = [lambda: chk.validate("TraceDumps", "SPECIFICATION Spec\n", traces, shards=8, timeout=6000),
            lambda: chk.model_check("MC_Dumps", mc.format("FALSE", 1), leg="mc:pasted", workers=4, timeout=6000)]
    if not q:
        jobs += [lambda: chk.model_check("MC_Dumps", mc.format("FALSE", 2), leg="mc:pasted twice", workers=4, timeout=9000),
                 lambda: chk.model_check("MC_Dumps", mc.format("TRUE", 1), leg="mc:wide", workers=4, timeout=9000)]
    rej = chk.parallel(*jobs)[0]
    chk.sample({k: v for k, v in traces[0]["ev"][1].items()})
    chk.assumptions += ["dump text is ASCII apart from quoted JSON keys"]
    report(chk, traces, rej)
