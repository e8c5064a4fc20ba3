"""Device trees of real plants, hand-filled and live, validated against Devices.tla."""
import random

import core
import vt
import wire
import bank
import detect
from bank import words
from detect import NOCAPS, Site, caps_rec, rand_plant, rand_prior, w10
from poll import MODELS, build, caps_of, report

from givenergy_modbus.exceptions import CommunicationError
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.model.register_cache import RegisterCache

HRS = [0, *range(13, 18), 19, 21]
IRS = [*range(60, 64), 98, *range(110, 119), *range(138, 143), 1325, 1327, *range(1600, 1604), *range(2066, 2086)]
CLS = {"HR": HR, "IR": IR}


def codes(s):
    return [ord(c) for c in s] if s else []


def mark(r):
    t, d = r.device_type.value, r.device
    if t == "battery_module":
        return [d.module_address] if hasattr(d, "module_address") else [d.bmu_index]
    if t == "hv_stack":
        return [d.device_address, len(d.bmus)]
    if t == "meter":
        return [-1 if d.v_phase_1 is None else round(d.v_phase_1 * 10)]
    return []


def row(r):
    return {"type": r.device_type.value, "id": codes(r.identity), "top": r.parent is None, "parent": codes(r.parent), "serial": codes(r.serial_number),
            "fw": codes(r.firmware_version), "valid": r.is_valid, "boss": r.is_control_authority, "src": r.data_source or "", "mark": mark(r)}


def caps3(c):
    r = caps_rec(c)
    return r if c is None else {k: r[k] for k in ("model", "inv", "packs", "meters", "stacks", "aio")}


class Watch:
    """Records what a plant holds about identities, and its tree."""

    def __init__(self, plant):
        self.p, self.seen, self.ev, self.caps, self.env = plant, {}, [], NOCAPS, []

    def cells(self, caches):
        out = {}
        for d, c in caches.items():
            out[d, "at", 0] = 0
            for k, rs in (("HR", HRS), ("IR", IRS)):
                for r in rs:
                    w = c.get(CLS[k](r))
                    if w is not None:
                        out[d, k, r] = w
        return out

    def look(self):
        now = self.cells(self.p.register_caches)
        diff = [{"d": d, "k": k, "r": r, "w": w} for (d, k, r), w in now.items() if self.seen.get((d, k, r)) != w]
        diff += [{"d": d, "k": k, "r": r, "w": -1} for (d, k, r) in self.seen if (d, k, r) not in now]
        if diff:
            self.ev.append({"k": "cells", "cells": diff})
            self.seen = now
        c, e = caps3(self.p.capabilities), codes(self.p.inverter_serial_number)
        if c != self.caps:
            self.ev.append({"k": "caps", "caps": c})
            self.caps = c
        if e != self.env:
            self.ev.append({"k": "env", "s": e})
            self.env = e

    def direct(self, caches):
        for c in caches.values():
            self.ev.append({"k": "direct", "cells": [{"d": 0, "k": k, "r": r, "w": w} for (d, k, r), w in self.cells({0: c}).items() if k != "at"]})
        self.p.add_direct_source(caches)

    def tree(self):
        self.look()
        p = self.p
        e = {"k": "tree"}
        try:
            rows = p.devices
            views = {"packs": len(p.batteries), "meters": list(p.meters), "stacks": [[s.device_address, len(s.bmus)] for s in p.hv_stacks],
                     "aio": [m.module_address for m in p.aio_battery_modules], "ems": p.ems is not None, "gateway": p.gateway is not None,
                     "fleet": [{"serial": codes(x.serial_number), "src": x.data_source} for x in p.inverters]}
            again = [row(r) for r in p.devices] == [row(r) for r in rows]
            e.update(out="ok", rows=[row(r) for r in rows], again=again, views=views, me=codes(p.inverter_serial))
        except Exception as x:  # noqa: BLE001
            e.update(out=f"{x!r}"[:150], rows=[], again=True, views={}, me=[])
        self.ev.append(e)


# ---- hand-filled plants -----------------------------------------------------------------------
class Names:
    """Serials no two devices share."""

    def __init__(self, rng):
        self.rng, self.n = rng, 0
        self.order = rng.sample(range(1000), 400)

    def good(self, lower=False):
        self.n += 1
        s = f"{self.rng.choice(['SA', 'CE', 'BG', 'HY', 'FA'])}{self.rng.choice(['2236', '2301', '1948'])}{self.rng.choice('DAG')}{self.order[self.n]:03d}"
        return s.lower() if lower and self.rng.random() < 0.1 else s

    def odd(self):
        self.n += 1
        return self.rng.choice(["", "          ", " ", "X", "SHORT", "AB CD EF", "*", "\0\0A", "BG2236-", " BG2236"]) + (f"{self.order[self.n]:03d}" if self.rng.random() < 0.5 else "")


def put(p, d, k, base, ws):
    c = p.register_caches.setdefault(d, RegisterCache())
    for j, w in enumerate(ws):
        c[CLS[k](base + j)] = w


def rand_caps(rng):
    m = rng.choice(MODELS)
    x = rng.random()
    ems, hv = "EMS" in m, m in detect.HV
    pick = lambda pool, n: sorted(rng.sample(pool, rng.randint(0, min(n, len(pool)))))
    c = caps_of(m, packs=pick(range(50, 56), 6) if not (hv or ems) or x < 0.1 else [], meters=pick(range(1, 9), 8) if rng.random() < 0.7 else [],
                stacks=[[i, rng.choice([0, 1, 2, 5])] for i in pick(range(0, 32), 3)] if hv or x > 0.93 else [],
                aio=pick(range(80, 84), 4) if m == "ALL_IN_ONE" or x > 0.97 else [])
    if rng.random() < 0.1:
        rng.shuffle(c["packs"])
        rng.shuffle(c["meters"])
    c["inv"] = rng.choice([17, 17, 17, 17, 49, 50])
    return c


def say(p, rng, names, c, d):
    """Something about the device at d becomes known (or stops being)."""
    s5 = lambda: w10(names.good(True) if rng.random() < 0.75 else names.odd())
    if d in (17, 49) or (c and d == c["inv"] and d != 50):
        x = rng.random()
        if x < 0.4:
            put(p, d, "HR", 13, s5())
        elif x < 0.6:
            put(p, d, "HR", 19, [rng.choice([0, 1, 449, 65535])])
            put(p, d, "HR", 21, [rng.choice([0, 9, 10, 920])])
            if rng.random() < 0.5:
                put(p, d, "IR", 1325, [rng.choice([0, 7]), 5, rng.choice([0, 612])])
        elif x < 0.7:
            put(p, d, "IR", 1600, [rng.choice([0x4741, 0x4700]), rng.choice([0x4141, 0x0041, 0]), rng.choice([0, 1, 0x0a14]), rng.choice([9, 10, 0x0104])])
        elif x < 0.95:
            i = rng.randrange(4)
            put(p, d, "IR", 2066 + 5 * i, w10(names.good() if rng.random() < 0.6 else rng.choice(["", " ", "          ", "A B", " AB1 ", "\0AB2"])))
        else:
            p.register_caches[d].pop(HR(rng.randint(13, 17)), None) if d in p.register_caches else None
    elif 50 <= d <= 55:
        put(p, d, "IR", 110, s5())
        if rng.random() < 0.7:
            put(p, d, "IR", 98, [rng.choice([0, 3005, 65535])])
        if rng.random() < 0.15:
            put(p, d, "HR", 13, w10(names.good()))
        if rng.random() < 0.1:
            p.register_caches[d].pop(IR(112), None)
    elif 80 <= d < 112:
        put(p, d, "IR", 114, s5())
        if rng.random() < 0.1:
            p.register_caches[d].pop(IR(rng.randint(114, 118)), None)
    elif 112 <= d < 144:
        put(p, d, "IR", 60, [rng.choice([0x4741, 0x5858, 0, 0x3030]), rng.choice([0x4141, 0, 0x3030]), rng.choice([0, 1, 0x0a14]), rng.choice([0, 9, 10, 0x0104])])
        if rng.random() < 0.6:
            put(p, d, "IR", 138, s5())
        if rng.random() < 0.1:
            p.register_caches[d].pop(IR(rng.randint(60, 63)), None)
    else:
        put(p, d, "IR", 60, [rng.choice([0, 1, 2300, 5000, 5001, 65535])])
        if rng.random() < 0.2:
            put(p, d, "HR", 13, w10(names.good()))


def filled(rng):
    names = Names(rng)
    c = rand_caps(rng) if rng.random() < 0.9 else None
    p = Plant(inverter_serial_number=rng.choice(["", names.good()]))
    if rng.random() < 0.5:
        p.register_caches = {}
    w = Watch(p)
    w.tree()
    if c:
        p.capabilities = build(c)
        if c["inv"] != 17:
            p.capabilities.inverter_address = c["inv"]
    mods = []
    at = 80
    for _, n in (c or {"stacks": []})["stacks"]:
        mods += list(range(at, min(at + n, 112)))
        at += n
    pool = [17, 17, 49] + (c["packs"] + c["meters"] + c["aio"] + mods + [112 + i for i, _ in c["stacks"]] if c else list(range(50, 56))) + [50, 51, 1, 80, 112, 33]
    if c and "EMS" in c["model"]:
        pool += [17] * 6
    for d in dict.fromkeys(pool):
        if rng.random() < 0.5:
            say(p, rng, names, c, d)
    if c is None and rng.random() < 0.5:
        for d in range(50, 50 + rng.choice([6, 6, 5, 3])):
            put(p, d, "IR", 110, w10(names.good()))
    if c and "EMS" in c["model"] and rng.random() < 0.6:
        for i in range(4):
            put(p, 17, "IR", 2066 + 5 * i, w10(names.good()))
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        if x < (0.6 if c and "EMS" in c["model"] else 0.15):
            known = [bytes(b for j in range(5) for b in divmod(p.register_caches[17].get(IR(2066 + 5 * i + j), 0), 256)).decode("latin1").strip("\0 ").upper()
                     for i in range(4)] if 17 in p.register_caches else []
            known = [k for k in known if k]
            src = {}
            for a in rng.sample([17, 49, 50, 51], rng.randint(1, 3)):
                cc = RegisterCache()
                if rng.random() < 0.7:
                    cc[HR(0)] = rng.choice([0x2001, 0x3001, 0x4001, 0x8001])
                if rng.random() < 0.9:
                    for j, x in enumerate(w10(rng.choice(known) if known and rng.random() < 0.75 else names.good() if rng.random() < 0.7 else "")):
                        cc[HR(13 + j)] = x
                if rng.random() < 0.7:
                    cc[HR(19)], cc[HR(21)] = rng.choice([1, 449]), rng.choice([303, 449, 920])
                if rng.random() < 0.5:
                    cc[IR(1325)], cc[IR(1327)] = 7, 612
                src[a] = cc
            w.direct(src)
        else:
            say(p, rng, names, c, rng.choice(pool))
        if rng.random() < 0.7:
            w.tree()
    w.tree()
    return {"ev": w.ev}


# ---- live plants ------------------------------------------------------------------------------
async def live(seed):
    rng = random.Random(seed)
    with vt.Net() as net:
        s = Site(net, rng)
        w = Watch(s.c.plant)
        w.tree()
        dev, quiet = rand_plant(rng)
        names = Names(rng)
        for d in dev:                      # no two devices share a serial
            if (50 <= d <= 55 or 80 <= d < 112) and len(bytes(b for x in dev[d] for b in divmod(x, 256)).strip(b"\0 ")) > 6:
                dev[d] = w10(names.good())
        s.plant(dev, quiet)
        s.drops = rng.choice([0, 0.2])
        last = None
        for _ in range(rng.randint(2, 5)):
            x = rng.random()
            if last is None or x < 0.2:
                e = await s.detect(prior=rand_prior(rng, last) if last and x < 0.1 else None)
                last = e["caps"] if e["out"] in ("caps", "mismatch") else last
            elif x < 0.8:
                try:
                    if not s.c.connected:
                        await s.c.connect()
                    await (s.c.load_config if rng.random() < 0.4 else s.c.refresh)()
                except CommunicationError:
                    pass
            elif x < 0.9:
                for d in list(s.dev):
                    if d != 17 and rng.random() < 0.3:
                        s.dev.pop(d)
            else:
                for d in list(s.dev):
                    if rng.random() < 0.5 and s.net.links and s.c.connected:
                        s.net.link.rx(wire.read_response(d, 3, 0, s.page(("HR", d, 0, 60)) if d == 17 else [7] * 13 + w10("XX9999X999") + [5] * 42))
                await s.settle()
            w.tree()
        await s.c.close()
        return {"ev": w.ev}


MC = 'CONSTANT Kinds = "{}"\nSPECIFICATION Spec\nINVARIANT Ok\nPROPERTY Steps\nCHECK_DEADLOCK FALSE\n'


def run(chk):
    rng = random.Random(chk.seed * 75011 + 7)
    q = chk.quick
    traces = [filled(rng) for _ in range(450 if q else 8000)]
    for _ in range(60 if q else 1200):
        traces.append(vt.run(lambda: live(rng.randrange(1 << 30))))
    trees = [e for t in traces for e in t["ev"] if e["k"] == "tree"]
    chk.leg("driver", trees=len(trees), rows=sum(len(e["rows"]) for e in trees))
    # the plant's serial under every kind of traffic: the register store's histories
    hist = bank.fixed() + [bank.random_history(rng) for _ in range(120 if q else 3000)]
    hist = [t for t in hist if t["ev"]]
    jobs = [lambda: chk.validate("TraceDevices", "SPECIFICATION Spec\n", traces, leg="trees", shards=8, timeout=6000),
            lambda: chk.validate("TraceBank", "SPECIFICATION Spec\n", hist, leg="serial", shards=4, timeout=6000)]
    jobs += [lambda k=k: chk.model_check("MC_Devices", MC.format(k), leg="mc:" + k, workers=2, timeout=6000) for k in ("ems", "lv", "hv") if not q or k != "hv"]
    r1, r2 = chk.parallel(*jobs)[:2]
    chk.sample([e for e in traces[0]["ev"] if e["k"] == "tree"][-1])
    chk.assumptions += ["no two devices of a plant share a serial number", "All-in-One modules appear once they have been read"]
    report(chk, traces, r1)
    report(chk, hist, r2)
