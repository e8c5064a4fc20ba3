"""The plant as a register store: recorded message histories validated against Bank.tla."""
import random
import struct

import splice
import vt
import wire

from givenergy_modbus.framer import ClientFramer
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.pdu import BasePDU

FC = {"HR": 3, "IR": 4, "MR": 0x16}
B = lambda s: list(s.encode("latin1"))  # noqa: E731
SA, BAT, WF = B("SA1234G567"), B("BG2236D111"), B("WF1234G567")
NUL = [0] * 10
CANNED = {28: 0x4C32, 30: 0xA119, 31: 0x34EA, 32: 0xE77F, 33: 0xD475, 35: 0x4500, 40: 0xE4F9, 41: 0xC0A8, 43: 0xC0A8,
          46: 0xC5E9, 50: 0x60EF, 51: 0x8018, 52: 0x43E0, 53: 0xF6CE, 56: 0x080A, 58: 0xFCC1, 59: 0x661E}
LAN = (b"\0" * 7) + b",192.168.1.5,255.255.255.0,192.168.1.1\r\n\r\n\x12\x34"


def words(b):
    return list(struct.unpack(">5H", bytes(b)))


def page(n, g, fill=0):
    return [g.get(i, fill) for i in range(n)]


def regkey(r):
    return {"HR": 0, "IR": 65536}[r.reg_type] + r.index if r.reg_type in ("HR", "IR") else 131072 + r.index


def ms(x):
    return -1 if x is None else round(x * 1000)


class Run:
    def __init__(self, keys, regs=(), heal=900.0, stamp="aware", seeded=None):
        self.plant = Plant(splice_heal_seconds=heal)
        self.keys, self.regs, self.stamp = keys, list(regs), stamp
        self.t = 1000
        self.tr = {"heal": round(heal * 1000), "surge": -1, "ev": []}

    def snap(self):
        return {d: {regkey(r): v for r, v in c.items()} for d, c in self.plant.register_caches.items()}

    def bytes_of(self, e):
        inv, ada = bytes(e["inv"]), bytes(e["ada"])
        if "raw" in e:
            return bytes.fromhex(e["raw"])
        if e["k"] == "other":
            return wire.null_response(e["dev"], ada) if e["null"] else wire.heartbeat(ada)
        if e["k"] == "W":
            return wire.write_response(e["dev"], e["base"], e["w"][0], inv, ada, error=e["err"], bad_crc=0x5A5A if e["bad"] else 0)
        if e["err"]:
            return wire.error_response(e["dev"], FC[e["k"]], e["base"], max(1, len(e["w"])), inv, ada, bad_crc=0x11 if e["bad"] else 0)
        return wire.read_response(e["dev"], FC[e["k"]], e["base"], e["w"], inv, ada, bad_crc=e.get("crcx", 0x1234) if e["bad"] else 0)

    def step(self, e, dt=30000):
        e = dict(e)
        self.t += dt
        p = self.plant
        before = self.snap()
        exc = ""
        vt.CLOCK.now = self.t / 1000
        e["ts"] = self.t
        try:
            if e["k"] == "absent":
                p.mark_absent(e["dev"], e["kind"], e["base"], e["n"])
            elif e["k"] == "inval":
                p.invalidate_presence(e["dev"], e["kind"], e["base"], e["n"])
            elif e["k"] == "caps":
                p.capabilities = PlantCapabilities(
                    device_type=Model.HYBRID, inverter_address=e["inv"], lv_bcu_address=None if e["bcu"] < 0 else e["bcu"],
                    hv_bmu_addresses=sorted(e["bmu"]), meter_addresses=e.get("met", []), lv_battery_addresses=e.get("batt", [])) if e["has"] else None
            else:
                at = vt.at(self.t / 1000)
                if self.stamp == "early":            # stamped a little before it was processed
                    at = vt.at(self.t / 1000 - 0.5)
                    e["ts"] = self.t - 500
                for m in wire.decode_one(ClientFramer, self.bytes_of(e)):
                    if isinstance(m, BasePDU):
                        if self.stamp == "clock":
                            p.update(m)
                        else:
                            p.update(m, received_at=at.replace(tzinfo=None) if self.stamp == "naive" else at)
        except Exception as ex:  # noqa: BLE001
            exc = repr(ex)
        wait = 250 if self.stamp == "clock" else 0
        now = vt.at((self.t + wait) / 1000)
        vt.CLOCK.now = (self.t + wait) / 1000
        o = {"diff": [], "keys": [], "regs": [], "newest": -1, "inv": [], "ada": [], "isn": [], "crc": []}
        try:
            after = self.snap()
            for d in sorted(set(before) | set(after)):
                a, b = before.get(d, {}), after.get(d, {})
                o["diff"] += [[d, x, b.get(x, -1) if b.get(x, -1) is not None else -2]
                              for x in sorted(set(a) | set(b)) if a.get(x, -1) != b.get(x, -1)]
            kw = {} if self.stamp == "clock" else {"now": now.replace(tzinfo=None) if self.stamp == "naive" else now}
            for k in self.keys:
                pr = p.block_present(*k)
                o["keys"].append({"dev": k[0], "kind": k[1], "base": k[2], "n": k[3], "age": ms(p.block_age(*k, **kw)),
                                  "un": ms(p.content_unchanged_seconds(*k, **kw)), "pr": -1 if pr is None else int(pr)})
            for d, kind, r in self.regs:
                o["regs"].append({"dev": d, "kind": kind, "r": r, "age": ms(p.register_age(d, HR(r) if kind == "HR" else IR(r), **kw))})
            lu = p.last_updated_at
            o["newest"] = -1 if lu is None else ms((now - lu).total_seconds())
            o["inv"], o["ada"] = B(p.inverter_serial_number), B(p.data_adapter_serial_number)
            o["isn"] = B(p.inverter_serial)
            o["crc"] = sorted([d, n] for d, n in p.crc_failure_count.items() if n)
        except Exception as ex:  # noqa: BLE001
            exc = exc or "observing: " + repr(ex)
        self.tr["ev"].append({**e, "exc": exc, "now": self.t + wait, "o": o})
        return self


def msg(k, dev, base, w, **kw):
    return {"k": k, "dev": dev, "base": base, "w": list(w), "err": False, "bad": False, "null": False, "inv": SA, "ada": WF, **kw}


def damaged(e, rng):
    """Flip bits of a good read response after the envelope; describe what arrives as the wire now names it."""
    f = bytearray(wire.read_response(e["dev"], FC[e["k"]], e["base"], e["w"], bytes(e["inv"]), bytes(e["ada"])))
    x = rng.random()
    if x < 0.3:
        pos = [rng.randrange(26, len(f))]
    elif x < 0.45:
        pos = [27]
    elif x < 0.6:
        pos = [26]
    elif x < 0.7:
        pos = [38 + rng.randrange(4)]
    elif x < 0.77:
        pos = [len(f) - 1 - rng.randrange(2)]
    elif x < 0.8:          # the two bytes of the check in the other order
        pos = []
        f[-2:] = f[:-3:-1]
    else:
        pos = sorted(rng.sample(range(26, len(f)), rng.choice([2, 3, 5])))
    for p in pos:
        f[p] ^= 1 << rng.randrange(8)
    if rng.random() < 0.05:
        f[-2:] = b"\0\0"
    if wire.crc(bytes(f[26:-2])) == struct.unpack(">H", f[-2:])[0]:
        return None
    dev, fc = f[26], f[27]
    base, n = struct.unpack(">HH", f[38:42])
    have = (len(f) - 44) // 2
    kind = {3: "HR", 4: "IR", 0x16: "MR"}.get(fc & 0x7F)
    d = {"raw": bytes(f).hex(), "dev": dev, "base": base, "inv": list(f[28:38]), "ada": e["ada"], "w": [], "bad": True, "err": bool(fc & 0x80)}
    if kind is None or (not fc & 0x80 and n > have):
        return {**d, "k": "other", "null": True}
    return {**d, "k": kind, "null": False}


def from_spec(b):
    """A behaviour generated by TLC: a list of [e, dt]."""
    devs = sorted({x["e"]["dev"] for x in b if "dev" in x["e"]})
    keys = {(17, "HR", 0, 60), (17, "HR", 60, 60), (17, "HR", 15, 1), (17, "IR", 0, 60), (50, "IR", 60, 60), (50, "IR", 100, 1),
            (5, "IR", 60, 30), (80, "IR", 60, 60), (112, "IR", 120, 60), (17, "HR", 94, 1), (17, "HR", 94, 2), (50, "HR", 60, 60)}
    r = Run(sorted(keys), [(17, "HR", 15), (17, "HR", 94), (50, "IR", 100), (5, "IR", 60), (99, "IR", 1)], heal=60)
    for x in b:
        r.step(x["e"], x["dt"])
    return r.tr


def serial_variants(rng, good):
    """Ten bytes that are, or are nearly, a serial number."""
    b = list(good)
    x = rng.random()
    if x < 0.4:
        return b
    if x < 0.6:
        b[rng.randrange(10)] = rng.choice([0x20, 0, 0x2D, 0xC9, 0xFF, 0x7F, 0x5B, 0x60, 0x2F, 0x3A, 0x40, 0x7B, 0xB2, 0xAA])
        return b
    if x < 0.7:
        i = rng.randrange(10)
        b[i] = b[i] | 0x20 if 65 <= b[i] <= 90 else b[i]
        return b
    if x < 0.8:
        return [0] * 10
    return [rng.choice(range(48, 91)) for _ in range(10)]


def rand_page(rng, n, kind):
    x = rng.random()
    if x < 0.12:
        return [0] * n
    if x < 0.2:
        return [rng.choice([0, 0, 0, 65535]) for _ in range(n)]
    if x < 0.3:
        return [rng.randrange(65536) for _ in range(n)]
    if x < 0.45 and n == 60:
        g = [rng.randrange(100) for _ in range(n)]
        for i in rng.sample(sorted(CANNED), rng.choice([4, 5, 6, 7, 17])):
            g[i] = rng.choice([CANNED[i], {40: 0xB619, 50: 0x503C}.get(i, CANNED[i])])
        return g
    return [rng.randrange(5000) for _ in range(n)]


def random_history(rng, n=30):
    heal = rng.choice([900, 60])
    caps = rng.choice([None, None, {"k": "caps", "has": True, "inv": 17, "bcu": rng.choice([-1, 49, 51]), "bmu": rng.choice([[], [80, 81]])},
                       {"k": "caps", "has": True, "inv": 49, "bcu": -1, "bmu": []}])
    blocks = [(17, "HR", 0, 60), (17, "HR", 60, 60), (17, "IR", 0, 60), (17, "IR", 180, 60), (49, "HR", 0, 60), (49, "IR", 60, 60),
              (50, "IR", 60, 60), (51, "IR", 60, 60), (5, "IR", 60, 30), (1, "IR", 60, 60), (112, "IR", 60, 60), (112, "IR", 120, 60),
              (143, "IR", 120, 60), (80, "IR", 60, 60), (81, "IR", 60, 60), (17, "HR", 1000, 60), (17, "IR", 1600, 60), (8, "IR", 60, 60),
              (9, "IR", 60, 60), (111, "IR", 120, 60), (144, "IR", 120, 60), (160, "IR", 60, 5), (0, "HR", 0, 60), (18, "HR", 0, 60)]
    use = rng.sample(blocks, rng.choice([3, 5, 8]))
    if rng.random() < 0.7 and (17, "HR", 0, 60) not in use:
        use.append((17, "HR", 0, 60))
    shorts = [(17, "HR", 13, 5), (17, "HR", 17, 1), (17, "HR", 94, 2), (17, "IR", 5, 1), (50, "IR", 110, 5), (50, "IR", 62, 3), (50, "IR", 0, 10),
              (50, "HR", 3, 4), (112, "IR", 140, 1), (80, "IR", 114, 5), (17, "HR", 1, 59), (17, "HR", 0, 59), (5, "IR", 89, 1), (17, "IR", 1, 60)]
    use += rng.sample(shorts, 3)
    if rng.random() < 0.15:     # a battery's page among full reads of its other registers
        use += [(50, "IR", 60, 60), (50, rng.choice(["HR", "HR", "IR"]), rng.choice([0, 120]), 60), (50, "HR", 60, 60)]
    r = Run(use + [(17, "HR", 0, 30), (33, "IR", 0, 60)],
            [(d, k, b + rng.randrange(c)) for d, k, b, c in use] + [(17, "HR", 0), (17, "HR", 59), (17, "HR", 60)], heal,
            rng.choice(["aware", "naive", "clock", "early"]))
    if caps:
        r.step(caps)
    sers = {d: words(serial_variants(rng, rng.choice([SA, BAT]))) for d in {u[0] for u in use}}
    last = {}
    for _ in range(n):
        dt = rng.choice([0, 1000, 30000, 30000, 30000, 299999, 300001, 900000])
        x = rng.random()
        d, k, b, c = rng.choice(use)
        if x < 0.06:
            r.step({"k": rng.choice(["absent", "inval"]), "dev": d, "kind": k, "base": b, "n": c}, dt)
            continue
        if x < 0.08:
            r.step({"k": "caps", "has": rng.random() < .6, "inv": rng.choice([17, 17, 49]), "bcu": rng.choice([-1, 49]), "bmu": rng.choice([[], [80]]),
                    "met": rng.choice([[], [], [1, 5]]), "batt": rng.choice([[], [50], [50, 51]])}, dt)
            continue
        if x < 0.16:
            dev = rng.choice([17, 17, 17, 49, 50, 1, 5, 80, 112])
            r.step(msg("W", dev, rng.choice([0, 1, 13, 17, 94, 95, 96, 110, 1000, 2044, 59, 60]), [rng.choice([0, 1, 60, 130, 65535])],
                       err=rng.random() < 0.2, inv=rng.choice([SA, BAT]), ada=rng.choice([WF, WF, B("WX9999Z001")])), dt)
            continue
        if x < 0.2:
            e = msg("other", d, 0, [], null=rng.random() < 0.6)
            if rng.random() < 0.3:
                e["raw"] = wire.mbap(2, b"WO1234G567" + LAN).hex()
            r.step(e, dt)
            continue
        if x < 0.24:
            r.step(msg(rng.choice(["HR", "IR", "MR"]), d, b, [], err=True, bad=rng.random() < .4, inv=rng.choice([SA, BAT, NUL]), ada=B("WX9999Z001")), dt)
            continue
        if x < 0.27:
            r.step(msg("MR", rng.choice([1, 5]), 60, [rng.randrange(65536) for _ in range(2)], inv=NUL), dt)
            continue
        batt = 50 <= d <= 55 and k == "IR" and b == 60 and c == 60
        if batt:
            w = splice.chg(splice.base(), **{"i50": sers[d][0], "i51": sers[d][1], "i52": sers[d][2], "i53": sers[d][3], "i54": sers[d][4]})
            y = rng.random()
            if y < 0.2:
                w = splice.chg(w, i40=rng.choice([55, 90]), i16=rng.choice([0, 250, 400]))
            elif y < 0.28:
                w = [0] * 16 + w[16:]
            elif y < 0.35:
                w = [0] * 60
            elif y < 0.4:
                w = splice.chg(w, i52=0)
        else:
            w = rand_page(rng, c, k)
            for off in (13 if k == "HR" else 110, 114, 138):
                for j in range(5):
                    if b <= off + j < b + c and rng.random() < 0.97:
                        w[off + j - b] = (sers[d] if rng.random() < 0.93 else words(serial_variants(rng, BAT)))[j]
            if rng.random() < 0.08:
                w = [0] * c
            if rng.random() < 0.3 and (d, k, b, c) in last:
                w = list(last[(d, k, b, c)])
                if rng.random() < 0.5:
                    w[rng.randrange(c)] ^= 1
        e = msg(k, d, b, w, inv=SA if d in (17, 49) else rng.choice([BAT, NUL]), ada=rng.choice([WF, WF, WF, B("WX9999Z001")]))
        if rng.random() < 0.15:
            m = damaged(e, rng)
            if m:
                r.step(m, dt)
            continue
        if (50 <= d <= 55 and k == "IR" and not batt and c >= 60) or (50 <= d <= 55 and k == "HR" and c >= 60):
            continue
        last[(d, k, b, c)] = w
        r.step(e, dt)
    return r.tr


def fixed():
    """Directed histories."""
    out = []
    ser = dict(enumerate(words(SA), 13))
    good = page(60, {0: 0x2001, 21: 449, **ser})
    # every word of the identity, alone, with every kind of bad byte
    for i in range(13, 18):
        for bad in (0, 0x2020, 0x41C9, 0xFF41, 0x4100, 0x0041, 0x412D, 0x2F41, 0x3A30, 0x4030, 0x5B41, 0x6041, 0x7B41):
            r = Run([(17, "HR", 0, 60), (17, "HR", i, 1)], [(17, "HR", i)])
            r.step(msg("HR", 17, 0, good)).step(msg("HR", 17, 0, page(60, {**dict(enumerate(good)), i: bad, 21: 450})))
            r.step(msg("HR", 17, i, [bad])).step(msg("HR", 17, i, [good[i]])).step(msg("HR", 17, 0, good))
            out.append(r.tr)
            r = Run([(17, "HR", 0, 60), (17, "HR", i, 1)], [])
            r.step(msg("HR", 17, i, [good[i]])).step(msg("HR", 17, 0, page(60, {**dict(enumerate(good)), i: bad}))).step(msg("HR", 17, 0, good))
            out.append(r.tr)
    # the count of canned words that condemns a page
    import itertools
    for k, combo in enumerate(itertools.combinations(sorted(CANNED), 6)):
        if k % 211:
            continue
        r = Run([(17, "IR", 0, 60)])
        for m in (5, 6):
            g = page(60, {c: CANNED[c] for c in combo[:m]}, fill=1)
            r.step(msg("IR", 17, 0, g)).step(msg("IR", 17, 180, g)).step(msg("IR", 17, 1, g)).step(msg("HR", 17, 60, g))
        out.append(r.tr)
    for i in CANNED:            # each of the seventeen counts
        others = [c for c in sorted(CANNED) if c != i][:5]
        r = Run([(17, "IR", 0, 60)])
        r.step(msg("IR", 17, 0, page(60, {c: CANNED[c] for c in others}, fill=1)))
        r.step(msg("IR", 17, 0, page(60, {c: CANNED[c] for c in [*others, i]}, fill=2)))
        if i in (40, 50):
            r.step(msg("IR", 17, 0, page(60, {**{c: CANNED[c] for c in others}, i: {40: 0xB619, 50: 0x503C}[i]}, fill=3)))
        r.step(msg("IR", 17, 0, page(60, {**{c: CANNED[c] for c in others}, i: CANNED[i] ^ 1}, fill=4)))
        out.append(r.tr)
    # all-zero pages at every kind of device, over nothing / zero / one nonzero word at either end / other pages
    for dev, kind, base, n in ((17, "HR", 60, 60), (17, "IR", 0, 60), (5, "IR", 60, 60), (112, "IR", 60, 60), (80, "IR", 60, 60), (33, "HR", 0, 60),
                               (5, "IR", 60, 30), (17, "HR", 1, 59), (50, "IR", 60, 60), (50, "IR", 70, 20), (17, "IR", 1600, 60)):
        for pos in (0, n - 1, n // 2):
            r = Run([(dev, kind, base, n)], [(dev, kind, base + pos)])
            z = [0] * n
            nz = list(z)
            nz[pos] = 7
            r.step(msg(kind, dev, base, z)).step(msg(kind, dev, base, nz)).step(msg(kind, dev, base, z)).step(msg(kind, dev, base, nz[:]))
            r.step(msg(kind, dev, base + pos, [0])).step(msg(kind, dev, base, z))
            other = {"HR": "IR", "IR": "HR"}[kind]
            if not 50 <= dev <= 55:
                r.step(msg(other, dev, base, nz)).step(msg(kind, dev, base, z)).step(msg(other, dev, base, z))
                r.step(msg(kind, dev + 200 if dev < 20 else dev, base, z))
            r.step({"k": "inval", "dev": dev, "kind": kind, "base": base, "n": n}).step(msg(kind, dev, base, z))
            out.append(r.tr)
    # reads of a battery's other registers between reads of its page: each is judged on its own
    pg = splice.base()
    for other in (("HR", 60), ("HR", 0), ("IR", 0), ("IR", 120)):
        for w in (page(60, {}, 7), [0] * 60):
            for plan in ("opop", "oppop", "poopop", "ppop", "ppOp", "ppOOp", "pxopop", "ppxoxop"):
                r = Run([(50, "IR", 60, 60), (50, other[0], other[1], 60)], [(50, "IR", 60), (50, other[0], other[1])])
                for c in plan:
                    words_ = {"p": pg, "x": splice.chg(pg, i3=0, i4=0, i5=9)}.get(c, w)
                    r.step(msg("IR" if c in "px" else other[0], 50, 60 if c in "px" else other[1], words_, inv=BAT), 400000 if c == "O" else 30000)
                out.append(r.tr)
    # the bytes of a check in the other order
    r = Run([(17, "HR", 60, 60), (17, "IR", 0, 4)], [(17, "HR", 60)])
    for v in range(1, 40):
        for kind, base, w in (("HR", 60, [v] * 60), ("IR", 0, [v, 0, v, 1])):
            class R:
                def random(s): return 0.78
            m = damaged(msg(kind, 17, base, w), R())
            if m:
                r.step(m, 1000)
    out.append(r.tr)
    # acknowledged writes
    for caps in (None, {"k": "caps", "has": True, "inv": 17, "bcu": 49, "bmu": [80], "met": [1, 5], "batt": [50, 51]}, {"k": "caps", "has": True, "inv": 49, "bcu": -1, "bmu": []}):
        for dev in (17, 49, 50, 33) + ((1, 5, 51, 80, 112) if caps and caps["inv"] == 17 else ()):
            r = Run([(17, "HR", 60, 60), (17, "HR", 94, 1), (49, "HR", 94, 1)], [(17, "HR", 94)])
            if caps:
                r.step(caps)
            r.step(msg("W", dev, 94, [130])).step(msg("HR", 17, 60, page(60, {34: 1}))).step(msg("W", dev, 94, [200]))
            r.step(msg("W", dev, 94, [0])).step(msg("W", dev, 0, [5])).step(msg("W", dev, 1, [5])).step(msg("W", dev, 96, [1], err=True))
            r.step(msg("W", dev, 65535, [65535])).step(msg("W", dev, 94, [131], inv=BAT)).step(msg("W", dev, 59, [1])).step(msg("W", dev, 311, [1]))
            out.append(r.tr)
    # every single-bit flip of the address / function / range / check of a read response
    for kind, base, w in (("IR", 60, [3, 4]), ("HR", 96, [1]), ("HR", 0, good), ("MR", 60, [7, 8])):
        r = Run([(17, kind if kind != "MR" else "HR", base, len(w))], [(17, "HR", base)])
        r.step(msg(kind, 17, base, w))
        f0 = wire.read_response(17, FC[kind], base, w, bytes(SA), bytes(WF))
        spots = list(range(26, 46)) + list(range(len(f0) - 4, len(f0)))
        for pos in dict.fromkeys(s for s in spots if s < len(f0)):
            for bit in range(8):
                class R:      # deterministic chooser feeding damaged()
                    def __init__(s): s.q = iter([0.1, 0.9])
                    def random(s): return next(s.q)
                    def randrange(s, *a): return pos if len(a) == 2 else bit
                    def choice(s, x): return x[0]
                m = damaged(msg(kind, 17, base, w), R())
                if m:
                    r.step(m, 1000)
        out.append(r.tr)
    return out


def cfg(small, steps):
    return f"""SPECIFICATION Spec
VIEW View
CONSTANTS
 MaxSteps = {steps}
 Small = {small}
INVARIANTS PresentMeansAccepted PresentMeansHeld
PROPERTIES WholeOrNothing ZeroesNeverWin IdentityKept DamagedInert StampedOnAccept InverterIdentity WriteTouchesOne
"""


GEN = """SPECIFICATION GSpec
CONSTANTS
 MaxSteps = 18
 Small = {}
INVARIANTS PresentMeansAccepted PresentMeansHeld
PROPERTIES WholeOrNothing ZeroesNeverWin IdentityKept DamagedInert StampedOnAccept InverterIdentity WriteTouchesOne
"""


def run(chk):
    rng = random.Random(chk.seed * 104729 + 5)
    jobs = [lambda: chk.model_check("MC_Bank", cfg("{}", 2 if chk.quick else 3), leg="mc:all-messages", workers=4, timeout=6000),
            lambda: chk.generate("GenBank", GEN, leg="gen", simulate=f"num={80 if chk.quick else 1500}", timeout=6000,
                                 extra=["-depth", "20", "-seed", str(chk.seed)], workers=1)]
    if not chk.quick:
        jobs.append(lambda: chk.model_check("MC_Bank", cfg("{1,3,4,5,9,14,15,16,17,32,40,45}", 5), leg="mc:core-messages", workers=4, timeout=6000))
    beh = chk.parallel(*jobs)[1]
    traces = [from_spec(b) for b in beh] + fixed()
    traces += [random_history(rng) for _ in range(500 if chk.quick else 8000)]
    traces = [t for t in traces if t["ev"]]
    chk.leg("driver", events=sum(len(t["ev"]) for t in traces))
    rej = chk.validate("TraceBank", "SPECIFICATION Spec\n", traces, shards=8, timeout=3000)
    e = traces[0]["ev"][0]
    chk.sample({k: e[k] for k in ("k", "dev", "base", "w") if k in e})
    for tid, info in rej:
        for d in info or [{"clause": [chk.pid + ":not-explained"], "i": 0, "want": "?"}]:
            for c in d["clause"]:
                pid, what = c.split(":", 1)
                if pid == chk.pid:
                    ev = traces[tid]["ev"][: d["i"]]
                    last = {k: v for k, v in ev[-1].items() if k != "o"} if ev else {}
                    chk.violation(f"message #{d['i']} of history {tid}: {what} (specification: {d['want']}) {last}",
                                  replay={"clause": c, "events": ev})
