#!/opt/venv/bin/python
"""Draft of specs/attributes.ndjson, the attribute table of Decode.tla.

Run once when the table was first written down (and reviewed against the register notes in /repo);
the committed table is part of the specification, no check regenerates it.
"""
import inspect
import json
import os
import re
import sys
from enum import Enum

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from givenergy_modbus.model import aio_battery, battery, ems, gateway, hv_bcu, inverter, inverter_threephase, lv_bcu, meter  # noqa: E402

CLS = {"AioBatteryModule": aio_battery, "Battery": battery, "Ems": ems, "GatewayV1": gateway, "GatewayV2": gateway, "Bcu": hv_bcu,
       "Bmu": hv_bcu, "SinglePhaseInverter": inverter, "ThreePhaseInverter": inverter_threephase, "LvBcu": lv_bcu, "Meter": meter,
       "MeterProduct": meter}
SIMPLE = {"uint16", "uint32", "int32", "int16", "timeslot", "bool", "string", "firmware_version", "milli", "centi", "deci", "negate",
          "pf_signed", "pf", "datetime", "nominal_voltage", "nominal_frequency", "gateway_version"}


def enum(e, probe):
    miss = ""
    mem = []
    for v in range(300):
        try:
            m = probe(v)
        except ValueError:
            continue
        if m is None:
            continue
        if m.value == v:
            mem.append([v, m.name])
        else:
            miss = m.name
    return {"op": "enum", "members": mem, "miss": miss}


def bits(fn, width):
    out = []
    for b in range(width):
        r = fn(1 << b)
        if r:
            out.append([b, r[0]])
    full = fn((1 << width) - 1)
    return {"op": "flags", "bits": sorted(out, key=lambda x: full.index(x[1]) if full.count(x[1]) == 1 else -1)}


def op(c, nregs):
    args = []
    if isinstance(c, tuple):
        c, args = c[0], list(c[1:])
    if isinstance(c, type) and issubclass(c, Enum):
        if c.__name__ == "Model":
            return {"op": "family", "members": [[ord(m.value), m.name] for m in c if len(m.value) == 1]}
        return enum(c, c)
    n = c.__name__
    if n == "serial":
        return {"op": "string"}
    if n in SIMPLE:
        return {"op": n}
    if n == "hex":
        return {"op": "hex", "width": args[0] if args else 4}
    if n == "duint8":
        return {"op": "byte", "n": args[0]}
    if n == "bitfield":
        return {"op": "bits", "low": args[0], "high": args[1]}
    if n == "fstr":
        assert args == ["0.2f"]
        return {"op": "fixed2"}
    if n in ("_charge_status_from", "_bcu_status_from", "_ems_inverter_suspected_status"):
        return enum(None, c)
    if n in ("_inverter_fault_code", "_gateway_fault_code"):
        return bits(c, 32)
    if n == "_charger_warning_code":
        return bits(c, 16)
    if n == "_inverter_fault_code2":
        return bits(lambda v: c(v, *args), 16)
    raise SystemExit(f"unknown converter {c}")


def bound(b):
    if b is None:
        return []
    n = round(b * 10000)
    w = abs(n)
    return [{"s": (n > 0) - (n < 0), "w": [w >> 32, (w >> 16) & 65535, w & 65535]}]


def main():
    out = []
    for name, mod in CLS.items():
        lut = getattr(mod, name + "RegisterGetter").REGISTER_LUT
        for attr, d in lut.items():
            ops = [op(c, len(d.registers)) for c in (d.pre_conv, d.post_conv) if c]
            out.append({"cls": name, "name": attr, "regs": [str(r) for r in d.registers], "ops": ops, "lo": bound(d.min_value), "hi": bound(d.max_value)})
    path = os.path.join(os.path.dirname(__file__), "..", "specs")
    with open(os.path.join(path, "attributes.ndjson"), "w") as f:
        for r in out:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    al = []
    for name in ("SinglePhaseInverter", "ThreePhaseInverter", "Bcu"):
        cls = getattr(CLS[name], name)
        for n, p in vars(cls).items():
            if isinstance(p, property):
                src = inspect.getsource(p.fget)
                m = re.search(r"return self\.(\w+)  #", src)
                if "DeprecationWarning" in src and m and n not in ("e_inverter_out_day",):
                    al.append({"cls": name, "name": n, "of": m.group(1)})
    with open(os.path.join(path, "aliases.ndjson"), "w") as f:
        for r in al:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    with open(os.path.join(path, "ratings.ndjson"), "w") as f:
        for k, v in inverter._DTC_RATED_POWER.items():
            f.write(json.dumps({"dtc": int(k, 16), "rated": v, "battery": inverter._DTC_BATPOWER.get(k, -1)}, separators=(",", ":")) + "\n")
    assert not (set(inverter._DTC_BATPOWER) - set(inverter._DTC_RATED_POWER))
    print(len(out), len(al))


main()
