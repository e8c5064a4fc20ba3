"""Readings of the real device models, validated against Decode.tla."""
import datetime
import json
import os
import random
from enum import Enum

import core
import vt  # noqa: F401
from poll import report
from redact import CLS

from givenergy_modbus.model import TimeSlot, aio_battery, battery, ems, gateway, hv_bcu, inverter, inverter_threephase, lv_bcu, meter
from givenergy_modbus.model.slot_map import SlotMap
from givenergy_modbus.model.register_cache import RegisterCache

MODELS = {"AioBatteryModule": (aio_battery, {"module_address": 0x50}), "Battery": (battery, {}), "Ems": (ems, {}), "GatewayV1": (gateway, {}),
          "GatewayV2": (gateway, {}), "Bcu": (hv_bcu, {}), "Bmu": (hv_bcu, {"bmu_index": 1}), "SinglePhaseInverter": (inverter, {}),
          "ThreePhaseInverter": (inverter_threephase, {}), "LvBcu": (lv_bcu, {}), "Meter": (meter, {}), "MeterProduct": (meter, {})}
# names that raise AttributeError on purpose, pointing at their replacement
REMOVED = {"p_export_limit", "p_load_ac1", "p_load_ac2", "p_load_ac3", "p_out_ac1", "p_out_ac2", "p_out_ac3"}
CALL = {"is_valid", "p_pv", "e_pv_day"}


def table():
    out = {}
    for line in open(os.path.join(core.SPECS, "attributes.ndjson")):
        e = json.loads(line)
        out.setdefault(e["cls"], {})[e["name"]] = e
    return out


TABLE = table()
REGS = {c: sorted({r for e in es.values() for r in e["regs"]}, key=lambda r: (r[:2], int(r[3:]))) for c, es in TABLE.items()}


# ---- values as the specification has them ----------------------------------------------------------
def num(v):
    n = round(v * 10000)
    if abs(v * 10000 - n) > max(1e-3, abs(n) * 1e-12):
        return {"k": "odd", "v": repr(v)}
    w = abs(n)
    if w >> 48:
        return {"k": "big"}
    return {"k": "n", "s": (n > 0) - (n < 0), "w": [w >> 32, (w >> 16) & 65535, w & 65535]}


def canon(v):
    if v is None:
        return {"k": "none"}
    if isinstance(v, bool):
        return {"k": "b", "v": v}
    if isinstance(v, Enum):
        return {"k": "e", "v": v.value if isinstance(v.value, int) else 0, "name": v.name}
    if isinstance(v, int) or isinstance(v, float) and v == v and abs(v) != float("inf"):
        return num(v)
    if isinstance(v, str):
        return {"k": "str", "v": [ord(c) for c in v]}
    if isinstance(v, TimeSlot):
        return {"k": "slot", "v": [v.start.hour, v.start.minute, v.end.hour, v.end.minute]}
    if isinstance(v, datetime.datetime):
        return {"k": "date", "v": [v.year, v.month, v.day, v.hour, v.minute, v.second]}
    if isinstance(v, SlotMap):
        return {"k": "slots", "c": [list(x) for x in v.charge_slots], "d": [list(x) for x in v.discharge_slots]}
    if isinstance(v, (list, tuple)):
        if all(isinstance(x, str) for x in v):
            return {"k": "txt", "v": list(v)}
        if all(hasattr(x, "p_inverter_out") for x in v):
            return {"k": "list", "v": [{"serial": [ord(c) for c in x.serial_number], "status": canon(x.status), "power": canon(x.p_inverter_out),
                                        "soc": canon(x.battery_soc), "temp": canon(x.t_inverter_heatsink)} for x in v]}
    return {"k": "odd", "v": type(v).__name__}


# ---- contents --------------------------------------------------------------------------------------
COMMON = [0, 1, 2, 3, 4, 9, 10, 59, 60, 61, 99, 100, 101, 255, 256, 257, 999, 1000, 4999, 5000, 5001, 9999, 10000, 10001, 20000, 20001,
          32767, 32768, 32769, 65534, 65535]
DTCS = [0x2001, 0x2101, 0x2A01, 0x3001, 0x3002, 0x4001, 0x4101, 0x5001, 0x5101, 0x6001, 0x7001, 0x8001, 0x8002, 0x8101, 0x8201, 0x8301, 0x8304,
        0x2201, 0x0000, 0x1001, 0x9001, 0xABCD, 0x0020, 0x20FF]
FWS = [0, 299, 300, 302, 303, 399, 400, 449, 799, 800, 899, 900, 999, 1000, 65535]
TIMES = [0, 1, 59, 60, 61, 99, 100, 159, 160, 959, 1200, 1259, 1260, 2300, 2359, 2360, 2399, 2400, 2401, 9999, 10000, 12345, 65535]
WORDS = [0x4142, 0x3031, 0x6162, 0x2020, 0x0000, 0xDFE9, 0xFFB5, 0x41F7, 0x0041, 0x4100, 0x617A, 0x5A5A, 0x3939, 0x2F3A, 0x405B]


def serial(rng):
    s = rng.choice(["SA1234G567", "EMS2522018", "CE2023G001", "sa1234g567", "SA1234G56 ", "          ", "", "0000000000", "AB12", "SÉ1234G567",
                    "SA12\u00df4G567", " SA1234G56", "SA1234G5678"])
    b = s.encode("latin1")[:10].ljust(10, b"\0")
    return [int.from_bytes(b[i:i + 2], "big") for i in range(0, 10, 2)]


def raw(n):
    """A number as a register pair."""
    return [(n >> 16) & 65535, n & 65535]


def edges(e, rng):
    """Contents worth trying for one attribute."""
    ops = [o["op"] for o in e["ops"]]
    n = len(e["regs"])
    out = []
    scale = 1
    for o in e["ops"]:
        scale *= {"deci": 10, "centi": 100, "milli": 1000, "pf_signed": 10000}.get(o["op"], 1)
    around = []
    for b in e["lo"] + e["hi"]:
        v = b["s"] * (b["w"][0] << 32 | b["w"][1] << 16 | b["w"][2])
        r = v * scale // 10000
        if ops[0] == "pf":
            r = v + 10000
        around += [r - 1, r, r + 1]
    if ops[0] in ("uint32", "int32"):
        vals = around + [0, 1, 65535, 65536, 65537, 131072, 999999, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFF0000, 0xFFFFFFFE, 0xFFF0BDC0,
                         0xFFF0BDBF, 100000, 1000000] + [rng.randrange(1 << 32) for _ in range(3)] + [1 << b for b in range(32)]
        out = [raw(v) for v in vals]
    elif ops[0] == "byte":
        out = [[h << 8 | l] for h, l in [(0, 0), (0, 1), (1, 0), (1, 1), (100, 101), (101, 100), (99, 255), (255, 99), (128, 127), (0, 101), (101, 0), (0, 100), (100, 0)]]
    elif ops[0] == "timeslot":
        out = [[a, b] for a, b in zip(TIMES, reversed(TIMES))] + [[rng.choice(TIMES), rng.choice(TIMES)] for _ in range(8)] + [[t, 2359] for t in TIMES] + [[30, t] for t in TIMES]
    elif ops[0] == "datetime":
        good = [24, 2, 29, 23, 59, 59]
        out = [good, [23, 2, 29, 0, 0, 0], [23, 2, 28, 0, 0, 0], [0, 1, 1, 0, 0, 0], [0, 0, 0, 0, 0, 0], [99, 12, 31, 1, 2, 3], [100, 2, 29, 0, 0, 0], [100, 2, 28, 0, 0, 0],
               [400, 2, 29, 5, 6, 7], [7999, 12, 31, 0, 0, 0], [8000, 1, 1, 0, 0, 0], [25, 4, 31, 0, 0, 0], [25, 4, 30, 0, 0, 0]]
        out += [good[:i] + [v] + good[i + 1:] for i in range(6) for v in (0, 12, 13, 24, 32, 60, 65535)]
    elif ops[0] == "string":
        out = [serial(rng)[:n] if n <= 5 else serial(rng) + [0] * (n - 5) for _ in range(6)] + [[rng.choice(WORDS) for _ in range(n)] for _ in range(5)]
    elif ops[0] == "gateway_version":
        out = [[0x4741, 0x0000, 9, 10], [0x4741, 0x4141, 0, 0x0104], [0, 0, 0, 0], [0x2020, 0x2020, 0x2020, 0], [0x3030, 0x3030, 0, 0]] + \
              [[rng.choice(WORDS), rng.choice(WORDS), rng.randrange(65536), rng.randrange(65536)] for _ in range(4)]
    elif ops[0] == "bits" or ops[-1] == "flags":
        out = [[1 << b] for b in range(16)] + [[0], [65535], [0xAAAA], [0x5555]] + [[rng.randrange(65536)] for _ in range(4)]
    elif e["regs"] == ["HR_0"]:
        out = [[d] for d in DTCS]
    elif e["regs"] == ["HR_21"]:
        out = [[d] for d in FWS]
    elif n == 1:
        vals = around + COMMON + [v for o in e["ops"] if o["op"] == "enum" for v in range(12)] + [rng.randrange(65536) for _ in range(3)]
        out = [[v & 65535] for v in vals]
    else:
        out = [[rng.choice(COMMON) for _ in range(n)] for _ in range(10)]
    assert all(len(x) == n for x in out), (e, out)
    return out


def contents(cls, rng, count):
    """Caches visiting every edge of every attribute, complete and with holes."""
    es = {n: edges(e, rng) for n, e in TABLE[cls].items()}
    for v in es.values():
        rng.shuffle(v)
    names = list(es)
    for k in range(count):
        c = {}
        style = rng.random()
        if style < 0.15:
            c = {r: rng.randrange(65536) for r in REGS[cls]}
        elif style < 0.2:
            c = dict.fromkeys(REGS[cls], 0)
        rng.shuffle(names)
        share = rng.choice([1.0, 1.0, 0.9, 0.5, 0.1])
        for n in names:
            if share == 1.0 or rng.random() < share:
                for r, v in zip(TABLE[cls][n]["regs"], es[n][k % len(es[n])]):
                    c[r] = v
        if cls in ("SinglePhaseInverter", "ThreePhaseInverter") and rng.random() < 0.8:
            c["HR_0"] = DTCS[k % len(DTCS)] if rng.random() < 0.6 else rng.choice([0x2001, 0x3001, 0x8001])
            c["HR_21"] = rng.choice(FWS)
        if cls == "SinglePhaseInverter" and rng.random() < 0.5:
            for i in (25, 26, 35, 36, 37, 44, 182, 183):
                c[f"IR_{i}"] = rng.choice([0, 1, 47, 55, 100, 101, rng.randrange(400)])
            for i in (21, 45):
                c[f"IR_{i}"], c[f"IR_{i + 1}"] = rng.choice([0, 0, 1, 3]), rng.randrange(65536)
        if cls == "Battery" and rng.random() < 0.6:
            c.update({"IR_82": 0, "IR_83": rng.choice([51200, 48000, 16000, 15999, rng.randrange(16000, 65536)]), "IR_88": 0, "IR_89": rng.randrange(30000),
                      "IR_97": rng.choice([0, 1, 14, 16, 16, 16])})
        holes = rng.choice([0, 0, 1, 3, len(c) // 4, len(c)])
        for r in rng.sample(sorted(c), min(len(c), holes)):
            del c[r]
        if holes == 3:
            for r in rng.sample(sorted(c), min(len(c), 3)):
                c[r] = None                    # a register known to be there whose value is not known
        yield c


# ---- recordings ------------------------------------------------------------------------------------
def cache_of(c):
    rc = RegisterCache()
    for r, v in c.items():
        rc[CLS[r[:2]](int(r[3:]))] = v
    return rc


def known(c):
    return {r: v for r, v in c.items() if v is not None}


def names_of(cls, model):
    own = {n for k in cls.__mro__ for n in vars(k) if k.__module__.startswith("givenergy_modbus") and not n.startswith("_")}
    out = []
    for n in sorted(own | set(cls.model_fields) | set(getattr(cls, "model_computed_fields", {}))):
        if n.startswith("model_") or n in REMOVED or n.startswith("_") or n.isupper():
            continue
        static = next((vars(k)[n] for k in cls.__mro__ if n in vars(k)), None)
        if callable(static) and n not in CALL or isinstance(static, (classmethod, staticmethod)):
            continue
        out.append(n)
    return out


def read_model(name, c):
    mod, kw = MODELS[name]
    rc = cache_of(c)
    before = dict(rc)
    e = {"k": "model", "cls": name, "cache": known(c), "vals": {}, "raised": [], "touched": False}
    try:
        m = getattr(mod, name).from_register_cache(rc, **kw)
        observe(m, e)
    except Exception as ex:
        e["raised"].append("building: " + repr(ex)[:160])
    e["touched"] = dict(rc) != before
    return e


def observe(m, e):
    for n in names_of(type(m), m):
        try:
            v = getattr(m, n)
            if n in CALL and callable(v):
                v = v()
        except Exception as ex:
            e["raised"].append(f"{n}: {ex!r}"[:120])
            continue
        e["vals"][n] = canon(v)
    try:
        d = m.model_dump()
        for n, v in d.items():
            if n in e["vals"] and canon(v) != e["vals"][n]:
                e["raised"].append(f"model_dump has another {n}")
        m.model_dump_json()
    except Exception as ex:
        e["raised"].append("model_dump: " + repr(ex)[:120])


def read_getter(name, c):
    getter = getattr(MODELS[name][0], name + "RegisterGetter")
    rc = cache_of(c)
    before = dict(rc)
    e = {"k": "getter", "cls": name, "cache": known(c), "vals": {}, "raised": [], "touched": False}
    g = getter(rc)
    for n in TABLE[name]:
        try:
            e["vals"][n] = canon(g.get(n))
        except Exception as ex:
            e["raised"].append(f"{n}: {ex!r}"[:120])
    e["touched"] = dict(rc) != before
    return e


def read_layout(name):
    mod = MODELS[name][0]
    e = {"k": "layout", "cls": name, "cache": {}, "vals": {}, "raised": [], "touched": False}
    getter, model = getattr(mod, name + "RegisterGetter"), getattr(mod, name)
    try:
        for n in TABLE[name]:
            p = getter.precision_of(n)
            e["vals"][n] = {"regs": [f"{r.reg_type}_{r.index}" for r in getter.registers_of(n)], "prec": -1 if p is None else p}
            if hasattr(model, "precision_of") and model.precision_of(n) != p:
                e["raised"].append(f"{n}: the model and its getter disagree about its precision")
        if getter.precision_of("no_such") is not None or getter.registers_of("no_such") != () or getter(RegisterCache()).get("no_such", 5) != 5:
            e["raised"].append("an unknown attribute has a precision, registers or a value")
    except Exception as ex:
        e["raised"].append(repr(ex)[:160])
    return e


def record(chk, counts):
    rng = random.Random(f"decode-{chk.seed}")
    traces, n = [], 0
    for cls in MODELS:
        ev = [read_layout(cls)]
        for k, c in enumerate(contents(cls, rng, counts(cls))):
            ev.append(read_model(cls, c))
            if k % 3 == 0:
                ev.append(read_getter(cls, c))
        n += len(ev)
        for k in range(0, len(ev), 4):
            traces.append({"ev": ev[k:k + 4]})
    chk.leg("readings", models_and_getters=n)
    rng.shuffle(traces)
    return traces


def run(chk):
    chk.assumptions += ["the attribute table specs/attributes.ndjson (registers, scaling, range, enumeration of every attribute) is the documentation the library is held to; "
                        "it was written down from the tree and reviewed, extra attributes are only required not to raise",
                        "registers hold 16-bit values; floating-point results count as equal to the exact decimal within rounding noise"]
    big = ("SinglePhaseInverter", "ThreePhaseInverter")

    def mc():
        chk.model_check("MC_Decode", f"INIT Init\nNEXT Next\nINVARIANT Ok\nCONSTANT Deep = {'FALSE' if chk.quick else 'TRUE'}\n", workers=4, timeout=1500)

    def readings():
        f = (lambda c: 300 if c in big else 180) if chk.quick else (lambda c: 1200 if c in big else 900)
        traces = record(chk, f)
        chk.sample({k: v for k, v in traces[0]["ev"][0].items() if k != "vals"})
        report(chk, traces, chk.validate("TraceDecode", "SPECIFICATION Spec\n", traces, shards=6 if chk.quick else 8, timeout=3000))

    chk.parallel(mc, readings)
