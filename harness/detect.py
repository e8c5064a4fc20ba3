"""Detects, liveness probes, saved topologies and offline rebuilds of the real client, validated against Detect.tla."""
import asyncio
import copy
import json
import random
import warnings

import core
import splice
import vt
import wire
from bank import SA, words
from poll import FC, KIND, MODELS, build, caps_of, report

from givenergy_modbus.client.client import Client
from givenergy_modbus.exceptions import CommunicationError, PlantTopologyMismatch
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.register_cache import RegisterCache

SER = words(SA)
NOCAPS = {"model": "none"}
CODES = {"HYBRID": [0x2201, 0x2F00, 0x2300], "AC": [0x3001, 0x3102, 0x3FFF], "HYBRID_3PH": [0x4001, 0x4F00], "EMS": [0x5001, 0x5201], "AC_3PH": [0x6001],
         "GATEWAY": [0x7001], "ALL_IN_ONE": [0x8001, 0x8401], "HYBRID_GEN1": [0x2001], "HYBRID_GEN2": [0x2001], "HYBRID_GEN3": [0x2001], "POLAR": [0x2101],
         "AIO_COMMERCIAL": [0x4101], "EMS_COMMERCIAL": [0x5101], "HYBRID_HV_GEN3": [0x8101, 0x81FF], "ALL_IN_ONE_HYBRID": [0x8201], "HYBRID_GEN4": [0x8301]}
FWS = {"HYBRID_GEN1": [0, 1, 449, 299, 400, 1000], "HYBRID_GEN2": [899, 900, 800, 999], "HYBRID_GEN3": [300, 302, 303, 399]}
HV = {"HYBRID_3PH", "AC_3PH", "ALL_IN_ONE", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID"}


def w10(s):
    return words(s.encode("latin1").ljust(10, b"\0")[:10])


GOOD = ["BG2236D111", "HY2301A001", "CE12345678", "ABCDEFGHIJ", "0123456789", "bg2236d11a"]
POOR = ["BG2236D11", "BG2236D11 ", "BG22 6D111", "BG2236D11-", " BG2236D11", "*BG2236D11", "BG2236D1\xe9\xe9", "\xff" * 10, "          ", "BG", "", "BG2236D1_1"]
BLANK = ["", "          ", "\0" * 10]
MARK = ["HY2301A001", "X", "         ", "        X ", " ", "\xff" * 10, "***"]


def caps_rec(c):
    if c is None:
        return NOCAPS
    return {"model": c.device_type.name, "fw": -1 if c.arm_firmware_version is None else c.arm_firmware_version, "inv": c.inverter_address,
            "packs": list(c.lv_battery_addresses), "bcu": -1 if c.lv_bcu_address is None else c.lv_bcu_address, "meters": list(c.meter_addresses),
            "stacks": [list(x) for x in c.bcu_stacks], "aio": list(c.aio_battery_module_addresses), "mods": list(c.hv_bmu_addresses)}


class Site:
    """The plant: what sits where, and a client on it."""

    def __init__(self, net, rng):
        self.net, self.rng = net, rng
        self.c = Client("h", 8899, tx_message_wait=0.25, tx_jitter=0)
        self.dev, self.fill, self.quiet = {}, {}, {}
        self.ev = []
        self.live = False
        self.drops, self.run_of = 0.0, {}
        self.lat = [0.0625, 0.125, 0.25]
        self.after = lambda n, d: None
        self.ntx = 0
        net.on_tx = self._tx

    async def settle(self):
        for _ in range(15):
            await asyncio.sleep(0)

    # ---- what is there
    def plant(self, dev, quiet=None):
        """dev: address -> identity words; quiet: addresses that hear but never answer acceptably."""
        self.dev, self.quiet = dict(dev), dict(quiet or {})
        self.ev.append({"k": "plant", "devs": [{"d": d, "w": list(w)} for d, w in sorted(dev.items())]})

    def word(self, d, kind, r):
        w = self.dev[d]
        if d == 17:
            if kind == "HR":
                return w[0] if r == 0 else w[1] if r == 21 else SER[r - 13] if 13 <= r <= 17 else None
            return None
        if d == 160:
            return w[0] if r == 61 else None
        if 112 <= d < 144:
            return w[0] if r == 64 else None
        if 80 <= d < 112:
            return w[r - 114] if 114 <= r <= 118 else None
        if d == 49:
            return w[r - 60] if 60 <= r <= 63 else 0
        if 50 <= d <= 55:
            return w[r - 110] if 110 <= r <= 114 else None
        return w[0] if r == 60 else None

    def blank(self, d):
        """Would a device with nothing behind it say zero everywhere?"""
        return d != 17 and not any(self.dev[d])

    def page(self, b):
        k, d, base, n = b
        if 50 <= d <= 55 and (base, n) == (60, 60):
            g = splice.base() if not self.blank(d) else [0] * 60
        elif self.blank(d) and self.fill.setdefault(d, self.rng.random() < 0.6):
            g = [0] * n
        else:
            g = [self.rng.randrange(1, 3000) for _ in range(n)]
        for o in range(n):
            x = self.word(d, k, base + o)
            if x is not None:
                g[o] = x
        return g

    # ---- the wire
    def answer(self, link, b, q):
        if not link.open or link.ended or link is not self.net.link:
            return
        d = b[1]
        if q == "err":
            data = wire.error_response(d, FC[b[0]], b[2], b[3])
        elif q == "bad":
            data = wire.read_response(d, FC[b[0]], b[2], [7] * b[3], bad_crc=0x1234)
        elif q == "zero":
            data = wire.read_response(d, FC[b[0]], b[2], [0] * b[3])
        elif q == "near":
            data = wire.read_response(d, FC[b[0]], b[2] + 120, [7] * b[3])
        else:
            data = wire.read_response(d, FC[b[0]], b[2], self.page(b))
            if self.live:
                self.ev.append({"k": "ok", "d": d, "id": b == ("HR", 17, 0, 60)})
            self.fresh = b == ("HR", 17, 0, 60)
        link.rx(data)

    def _tx(self, link, data):
        for r in wire.parse_tx(data):
            if r["k"] not in KIND:
                continue
            b = (KIND[r["k"]], r["dev"], r["a"], r["b"])
            d = b[1]
            if self.live:
                self.ev.append({"k": "tx", "d": d, "rollup": b == ("IR", 17, 2040, 55), "b": list(b)})
            q = "ok" if d in self.dev else "none"
            if d in self.quiet:
                q = self.quiet[d]
                if callable(q):
                    q = q()
            elif q == "ok":
                budget = 3 if d in (17, 50) else 1
                n = self.run_of.get(d, 0)
                if n < budget and self.rng.random() < self.drops:
                    self.run_of[d] = n + 1
                    q = self.rng.choice(["none", "none", "err", "bad", "near" if d == 17 else "none"])
                else:
                    self.run_of[d] = 0
            if q != "none":
                asyncio.get_running_loop().call_later(self.rng.choice(self.lat), self.answer, link, b, q)
            self.ntx += 1
            self.after(self.ntx, d)

    # ---- the user
    def absent(self):
        return [[k[1], k[0], k[2], k[3]] for k, v in self.c.plant.register_block_present.items() if v is False]

    async def detect(self, prior=None, lose=None, noise=0, **kw):
        """prior: a topology record or None; lose: (n-th request, delay, how)."""
        if not self.c.connected:
            await self.c.connect()
        self.ntx, self.run_of, self.live = 0, {}, True
        p = build(prior) if prior else None
        if p is not None and prior["inv"] != 17:
            p.inverter_address = prior["inv"]
        self.ev.append({"k": "start", "prior": prior or NOCAPS, "before": caps_rec(self.c.plant.capabilities)})
        loop = asyncio.get_running_loop()

        link = self.net.link
        self.turn = turn = object()

        def cut(how):
            if link.open and self.live and self.turn is turn:
                self.ev.append({"k": "lost"})
                (link.eof if how == "eof" else link.reset)()

        self.after = lambda n, d: loop.call_later(lose[1], cut, lose[2]) if lose and n == lose[0] else None

        async def chatter():
            while True:
                await asyncio.sleep(self.rng.choice([0.1, 0.3, 1.0]))
                d = self.rng.choice(list(self.dev))
                x = self.rng.random()
                if x < 0.4:
                    self.net.link.rx(wire.heartbeat())
                elif d == 17:
                    self.net.link.rx(wire.read_response(17, 4, 0, [self.rng.randrange(1, 3000) for _ in range(60)]))
                elif d not in self.quiet and (d == 49 or 50 <= d <= 55 or 80 <= d < 144):
                    self.net.link.rx(wire.read_response(d, 4, 60, self.page(("IR", d, 60, 60))))
        task = asyncio.create_task(chatter()) if noise else None
        e = {"k": "end", "caps": NOCAPS, "prior": NOCAPS, "same": False}
        try:
            r = await self.c.detect(**({"prior": p} if p else {}), **kw)
            e.update(out="caps", caps=caps_rec(r), same=r is self.c.plant.capabilities)
        except PlantTopologyMismatch as x:
            e.update(out="mismatch", caps=caps_rec(x.actual), prior=caps_rec(x.prior))
        except TimeoutError:
            e.update(out="timeout")
        except CommunicationError:
            e.update(out="comm")
        except (ValueError, TypeError, OSError) as x:
            e.update(out=f"other {x!r}"[:150])
        finally:
            if task:
                task.cancel()
        self.live, self.after, self.turn = False, lambda n, d: None, None
        e.update(connected=bool(self.c.connected and self.net.link.open), installed=caps_rec(self.c.plant.capabilities), absent=self.absent())
        self.ev.append(e)
        await self.settle()
        if e["out"] in ("caps", "mismatch") and (prior is None or prior["model"] == e["caps"]["model"]):
            self.offline(prior, p, e["caps"])
        if e["out"] == "caps":
            self.save(e["caps"])
        return e

    async def probe(self, q="ok", lose=None, retries=None, stale=False):
        """One liveness probe; q: what the inverter says (list: per transmission)."""
        if not self.c.connected and q != "down":
            await self.c.connect()
        self.ntx, self.fresh = 0, False
        seq = list(q) if isinstance(q, (list, tuple)) else [q]
        self.quiet = {17: lambda: seq[min(self.ntx, len(seq) - 1)]} if q != "down" else {}
        loop = asyncio.get_running_loop()
        link = self.net.links[-1] if self.net.links else None
        self.turn = turn = object()
        self.after = lambda n, d: loop.call_later(lose[1], lambda: getattr(link, lose[2])() if self.turn is turn else None) if lose and n == 1 else None
        e = {"k": "probe"}
        try:
            r = await self.c.probe_alive(**({} if retries is None else {"retries": retries}))
            e["out"] = "yes" if r is True else "no" if r is False else f"{r!r}"
        except Exception as x:  # noqa: BLE001
            if q != "down" and isinstance(x, (AttributeError, NameError)):
                raise
            e["out"] = "raised"
        self.after, self.quiet, self.turn = lambda n, d: None, {}, None
        e.update(answered=self.fresh, connected=bool(self.c.connected and self.net.link.open))
        self.ev.append(e)
        await self.settle()

    # ---- saved and rebuilt
    def offline(self, prior, p, want):
        rng = self.rng
        caches = self.c.plant.register_caches
        how = rng.choice(["copy", "json"])
        if how == "copy":
            src = {d: RegisterCache(dict(c)) for d, c in caches.items()}
        else:
            src = {d: RegisterCache.from_json(c.json()) for d, c in caches.items()}
        try:
            got = caps_rec(Plant.from_caches(src, p).capabilities if p else Plant.from_caches(src).capabilities)
        except (CommunicationError, ValueError, TypeError, KeyError) as x:
            got = {"model": f"raised {x!r}"[:100]}
        self.ev.append({"k": "offline", "how": how, "got": got, "want": want})

    def save(self, rec):
        d = json.loads(json.dumps(self.c.plant.capabilities.to_dict()))
        self.ev.append(saved(rec, d))


def hexes(x):
    return [int(v, 16) for v in x]


def saved(rec, d):
    try:
        back = caps_rec(PlantCapabilities.from_dict(d))
    except (ValueError, TypeError, KeyError) as x:
        back = {"model": f"raised {x!r}"[:100]}
    try:
        s = {"version": d["schema_version"], "device": d["device_type"], "inv": int(d["inverter_address"], 16), "meters": hexes(d["meter_addresses"]),
             "packs": hexes(d["lv_battery_addresses"]), "stacks": d["bcu_stacks"], "aio": hexes(d["aio_battery_module_addresses"]),
             "mods": hexes(d["hv_bmu_addresses"]), "bcu": -1 if d["lv_bcu_address"] is None else int(d["lv_bcu_address"], 16),
             "fw": -1 if d["arm_firmware_version"] is None else d["arm_firmware_version"]}
    except (KeyError, ValueError, TypeError) as x:
        s = {"version": 0, "odd": repr(x)[:100]}
    return {"k": "save", "caps": rec, "saved": s, "back": back}


# ---- plants -----------------------------------------------------------------------------------
def rand_plant(rng, model=None, plain=False):
    """-> (dev, quiet)"""
    m = model or rng.choice(MODELS)
    code, fw = rng.choice(CODES[m]), rng.choice(FWS.get(m, [0, 1, 302, 303, 449, 920, 65535]))
    dev, quiet = {17: [code, fw]}, {}

    def put(d, w):
        dev.pop(d, None)
        quiet.pop(d, None)
        if rng.random() < 0.12:
            quiet[d] = rng.choice(["none", "err", "bad"])
        else:
            dev[d] = w

    lv = m not in HV and "EMS" not in m
    for d in range(1, 9):
        if rng.random() < 0.3:
            put(d, [rng.choice([1, 2300, 2401, 5000, 0, 0, 5001, 65535, 4999])])
    if lv or rng.random() < 0.1:
        for d in range(50, 56):
            if rng.random() < (0.8 if d == 50 else 0.4):
                put(d, w10(rng.choice(GOOD if rng.random() < 0.7 else POOR if rng.random() < 0.7 else BLANK)))
        if rng.random() < 0.5:
            put(49, rng.choice([[0, 0, 0, 0], [0, 0, 167, 167], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 9]]))
    if m in HV or rng.random() < 0.1:
        n = rng.choice([0, 1, 1, 2, 3, 5])
        if rng.random() < 0.9:
            dev[160] = [n]
        elif rng.random() < 0.5:
            quiet[160] = "none"
        at = 80
        for i in range(n + rng.choice([0, 0, 1])):
            mods = rng.choice([0, 1, 2, 4, 5, 6, 40]) if rng.random() < 0.6 else rng.randint(1, 4)
            put(112 + i, [mods])
            for _ in range(mods):
                if at < 112 and rng.random() < 0.8:
                    put(at, w10(rng.choice(MARK if rng.random() < 0.7 else BLANK)))
                at += 1
        if rng.random() < 0.3:
            put(rng.randint(80, 111), w10("HY2301A001"))
    return dev, quiet


def rand_prior(rng, c, mods=True):
    """A topology near the true one (or the true one)."""
    p = copy.deepcopy(c)
    if rng.random() < 0.45:
        if rng.random() < 0.5:
            p["fw"] = rng.choice([-1, 0, 449, 303])
        return p
    for _ in range(rng.choice([1, 1, 2])):
        f = rng.choice(["model", "packs", "meters", "stacks", "aio", "mods", "bcu", "inv", "packs", "meters", "stacks"])
        if f == "model":
            p["model"] = rng.choice(MODELS)
        elif f == "inv":
            p["inv"] = rng.choice([0x31, 0x32])
        elif f == "bcu":
            p["bcu"] = 49 if p["bcu"] < 0 else -1
        elif f == "stacks":
            x = rng.random()
            if p["stacks"] and x < 0.35:
                p["stacks"].pop(rng.randrange(len(p["stacks"])))
            elif p["stacks"] and x < 0.7:
                s = rng.choice(p["stacks"])
                s[1] = max(0, s[1] + rng.choice([-1, 1]))
            else:
                p["stacks"].append([len(p["stacks"]) + rng.choice([0, 1]), 2])
        else:
            pool = {"packs": range(50, 56), "meters": range(1, 9), "aio": range(80, 84), "mods": range(80, 90)}[f]
            d = rng.choice(pool)
            if d in p[f]:
                p[f].remove(d)
            elif len(p[f]) > 1 and rng.random() < 0.2:
                p[f].reverse()
            else:
                p[f].append(d)
                if rng.random() < 0.8:
                    p[f].sort()
    return p


async def history(seed):
    rng = random.Random(seed)
    with vt.Net() as net:
        s = Site(net, rng)
        await s.c.connect()
        dev, quiet = rand_plant(rng)
        s.drops = rng.choice([0, 0, 0.3, 0.7])
        s.plant(dev, quiet)
        noise = rng.random() < 0.25
        last = None
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            kw = {"noise": noise}
            if x < 0.2:
                kw["lose"] = (rng.choice([1, 2, 3, 5, 8, 10, 13, 16, 20]), rng.choice([0, 0.03, 0.3, 0.6, 1.3]), rng.choice(["eof", "reset"]))
            if last is not None and x < 0.7:
                e = await s.detect(prior=rand_prior(rng, last), **kw)
            elif x > 0.9 and s.c.plant.capabilities is None:
                q = rng.choice(["none", "err", "bad", "near", "zero"] if not s.c.plant.register_caches.get(17) else ["none", "err", "bad", "near"])
                s.quiet[17] = q
                await s.detect(**kw)
                s.quiet.pop(17)
                e = {"out": "failed"}
            else:
                e = await s.detect(**kw)
            if e["out"] == "caps" or e["out"] == "mismatch":
                last = e["caps"]
            # things come and go (what answered before either answers the same or not at all)
            if rng.random() < 0.5:
                for d in list(s.dev):
                    if d != 17 and rng.random() < 0.25:
                        s.dev.pop(d)
                s.quiet = {}
                s.plant(s.dev, {})
            if rng.random() < 0.3:
                await s.probe(*rand_probe(rng))
            if rng.random() < 0.2:
                await s.c.close()
        await s.c.close()
        return {"ev": s.ev}


def rand_probe(rng):
    q = rng.choice(["ok", "ok", "none", "err", "bad", "near", "zero", ["none", "ok"], ["err", "ok"], ["none", "none"], "down"])
    lose = (1, rng.choice([0, 0.05, 0.5, 1.9]), rng.choice(["eof", "reset"])) if rng.random() < 0.2 else None
    return q, lose, rng.choice([None, None, 0, 1, 2])


async def probes(seed):
    rng = random.Random(seed)
    with vt.Net() as net:
        s = Site(net, rng)
        s.plant({17: [0x2001, 449], 50: w10(GOOD[0])})
        for _ in range(6):
            await s.probe(*rand_probe(rng))
            if rng.random() < 0.2 and s.c.connected:
                await s.detect()
            if rng.random() < 0.2:
                await s.c.close()
            await asyncio.sleep(rng.choice([0, 5, 60]))
        await s.c.close()
        return {"ev": s.ev}


async def simple(dev, quiet=None, drops=0, hint=True, seed=1):
    rng = random.Random(seed)
    with vt.Net() as net:
        s = Site(net, rng)
        s.plant(dev, quiet)
        s.drops = drops
        e = await s.detect()
        if e["out"] == "caps" and hint:
            await s.detect(prior=e["caps"])
        await s.c.close()
        return {"ev": s.ev}


async def cuts(dev, n, delay, how, prior=None):
    """The link goes at the n-th request of a detect; then another detect over a new link."""
    with vt.Net() as net:
        s = Site(net, random.Random(n))
        s.plant(dev)
        e = await s.detect(prior=prior, lose=(n, delay, how))
        if e["out"] != "caps":
            await s.detect(prior=prior)
        await s.c.close()
        return {"ev": s.ev}


def parts(c):
    """A topology, and what is left of it when all but one kind of device is dropped."""
    none = {**c, "packs": [], "meters": [], "stacks": [], "aio": [], "mods": [], "bcu": -1}
    out = [c, none]
    for f in ("packs", "meters", "bcu"):
        if c[f] not in ([], -1):
            out.append({**none, f: c[f]})
            if f == "packs":
                out.append({**none, f: c[f][:1]})
    if c["stacks"]:
        out.append({**c, "meters": []})
    return out


# ---- saved topologies -------------------------------------------------------------------------
def tag(v):
    if v is None:
        return {"t": "null", "v": 0}
    if isinstance(v, bool):
        return {"t": "bool", "v": 0}
    if isinstance(v, int):
        return {"t": "int", "v": v}
    if isinstance(v, float):
        return {"t": "float", "v": 0}
    if isinstance(v, str):
        return {"t": "str", "b": list(v.encode()), "s": v}
    if isinstance(v, list):
        return {"t": "list", "v": [tag(x) for x in v]}
    return {"t": "dict", "v": 0}


def load(d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = caps_rec(PlantCapabilities.from_dict(json.loads(json.dumps(d))))
        except (ValueError, TypeError, KeyError):
            got = {"model": "reject"}
    return {"k": "load", "fields": {k: tag(v) for k, v in d.items()}, "got": got, "raw": json.dumps(d)}


def any_caps(rng):
    def some(pool, k):
        return rng.sample(pool, rng.randint(0, k))
    return caps_of(rng.choice(MODELS), rng.choice([-1, 0, 303, 65535]), some(range(50, 56), 3), rng.choice([-1, 0x31, 0]), some(range(1, 9), 3),
                   [(o, rng.randint(0, 40)) for o in some(range(32), 3)], some(range(80, 84), 3), some(range(80, 112), 3)) | {"inv": rng.choice([17, 17, 0x31, 255])}


def pc(c):
    p = build(c)
    p.inverter_address = c["inv"]
    return p


def loads(rng, n):
    ev = []
    for m in Model:      # every kind of plant, in both formats
        c = caps_of(m.name, 449, [50, 55], 49, [8], [(0, 3), (2, 0)], [80, 83], [111])
        d = json.loads(json.dumps(pc(c).to_dict()))
        ev += [saved(c, d), load(d), load({**{k: v for k, v in d.items() if k != "schema_version"}, "device_type": m.value})]
        if m.value.isdigit():
            ev.append(load({**d, "device_type": int(m.value)}))
    junk = [None, True, 1.5, 17.0, -3, "", "0x", "0xg1", "50x", "fifty", "zz", [], {}, {"0x32": 1}, [1], ["0x32", None], [[1, 2]], ["x"], "12", "0x32", [1.5], [True],
            [[0]], [[0, 1, 2]], [["0", "2"]], [["0x0", "2"]], [[0, None]], [[0, 2.5]], ["12"], "HYBRID_GEN9", "hybrid", "9", 9, 0, 1, 2, "1", 449, [449]]
    keys = ["schema_version", "device_type", "inverter_address", "meter_addresses", "lv_battery_addresses", "bcu_stacks", "aio_battery_module_addresses",
            "hv_bmu_addresses", "lv_bcu_address", "arm_firmware_version"]
    alias = {"inverter_address": "inverter_slave", "meter_addresses": "meter_slaves", "lv_battery_addresses": "lv_battery_slaves", "bcu_stacks": "bcu_slaves"}

    def odd(k, v):
        # readings the format leaves open: numbers below zero or written as text where a version or firmware is meant, digits that begin a known code
        if k == "arm_firmware_version" and (isinstance(v, (bool, float)) or (isinstance(v, str) and v.isdigit())):
            return True
        if k == "device_type" and (isinstance(v, float) or isinstance(v, (int, str)) and len(str(v)) > 1 and str(v)[0] in "2345678"):
            return True
        if k == "schema_version" and isinstance(v, (bool, float)):
            return True
        return v == -3

    base = json.loads(json.dumps(pc(caps_of("HYBRID_GEN1", 449, [50, 51], 49, [1], [(0, 2)], [80], [81])).to_dict()))
    for k in keys:
        d = dict(base)
        d.pop(k)
        ev.append(load(d))
        for v in junk:
            if not odd(k, v):
                ev.append(load({**base, k: v}))
        if k in alias:
            d[alias[k]] = base[k]
            ev.append(load(d))
            ev.append(load({**d, k: base[k]}))
    for v in (0, 1, 2, 3, "1", "2", -1, [1], {}, "one"):
        ev.append(load({**base, "schema_version": v}))
    for _ in range(n):
        c = any_caps(rng)
        d = json.loads(json.dumps(pc(c).to_dict()))
        ev.append(saved(c, d))
        if rng.random() < 0.5:
            k = rng.choice(keys)
            v = rng.choice(junk)
            if not odd(k, v):
                d[k] = v
        if rng.random() < 0.2:
            d = {alias.get(k, k): v for k, v in d.items()}
        if rng.random() < 0.2:
            d["extra"] = 1
        if rng.random() < 0.3:
            d.pop("schema_version", None)
            for k in ("meter_addresses", "lv_battery_addresses"):
                if isinstance(d.get(k), list):
                    d[k] = [int(x, 16) if isinstance(x, str) and x.startswith("0x") and x != "0x" and "g" not in x else x for x in d[k]]
        ev.append(load(d))
    return [{"ev": ev[i:i + 40]} for i in range(0, len(ev), 40)]


def offline_bad():
    """A dump without the inverter's identity is refused."""
    ev = []
    for src in ({}, {0x32: RegisterCache()}, {0x11: RegisterCache()}):
        try:
            got = caps_rec(Plant.from_caches(src).capabilities)
        except CommunicationError:
            got = {"model": "refused"}
        ev.append({"k": "offline", "how": "none", "got": got, "want": {"model": "refused"}})
    return {"ev": ev}


MC = """SPECIFICATION Spec
CONSTANT Hv = {}
INVARIANTS Right NoHalf AsksOnlyAllowed LostIsNotAbsent ConfirmsExactly Gone
"""


def run(chk):
    rng = random.Random(chk.seed * 7919 + 5)
    random.seed(chk.seed)
    q = chk.quick
    pid = chk.pid
    traces = []
    sub = pid if pid in ("D01", "D02", "D03", "D04") else "D01"
    if sub in ("D01", "D02", "D04"):
        for m in MODELS:
            for k in range(2 if q else 12):
                dev, quiet = rand_plant(rng, m)
                traces.append(vt.run(lambda: simple(dev, quiet, drops=0.5 if k % 2 else 0, seed=rng.random())))
    if sub == "D01":
        for codes in [(c << 8 | 1, f) for c in range(0, 256, 1) for f in ((449,) if q else (0, 302, 303, 800, 900, 999, 1000))]:
            if q and codes[0] >> 8 > 0x90 and codes[0] % 5:
                continue
            traces.append(vt.run(lambda: simple({17: list(codes), 1: [2400]}, hint=False)))
        for d in range(50, 56):
            for x in GOOD + POOR + BLANK:
                traces.append(vt.run(lambda: simple({17: [0x2001, 449], d: w10(x)}, hint=False)))
        for v in (0, 1, 2, 4999, 5000, 5001, 6000, 65535, 2300):
            traces.append(vt.run(lambda: simple({17: [0x2001, 449], 1: [v], 8: [v]}, hint=False)))
        for n in (3, 31, 32, 33, 48, 100, 144, 255, 65535):
            traces.append(vt.run(lambda: simple({17: [0x8101, 449], 160: [n], 112: [2], 113: [1], 143: [1], 80: w10(MARK[0])}, hint=n < 4)))
        for x in MARK + BLANK:
            for code in (0x8001, 0x8101, 0x4001):
                traces.append(vt.run(lambda: simple({17: [code, 449], 160: [1], 112: [4], 80: w10(x), 83: w10(x)}, hint=False)))
    if sub == "D03":
        plants = [{17: [0x2001, 449], 50: w10(GOOD[0]), 51: w10(GOOD[1]), 1: [2300], 49: [0, 0, 1, 1]}, {17: [0x8101, 449], 160: [2], 112: [2], 113: [1], 80: w10(MARK[0]), 82: w10(MARK[0])},
                  {17: [0x5001, 449], 3: [2300]}, {17: [0x8001, 1], 160: [1], 112: [3], 80: w10(MARK[0])}, {17: [0x2001, 300]}]
        for dev in plants:
            for n in range(1, 27):
                for delay, how in [(0, "eof"), (0.3, "reset")] if q else [(0, "eof"), (0, "reset"), (0.05, "eof"), (0.3, "reset"), (0.6, "eof"), (1.0, "reset")]:
                    traces.append(vt.run(lambda: cuts(dev, n, delay, how)))
        for dev in plants:
            for prior in parts(next(e["caps"] for e in vt.run(lambda: simple(dev, {}, hint=False))["ev"] if e["k"] == "end")):
                k = 2 + sum(len(prior[f]) for f in ("packs", "meters", "stacks", "aio", "mods")) + (prior["bcu"] >= 0)
                for n in range(2, k + 1):
                    traces.append(vt.run(lambda: cuts(dev, n, rng.choice([0, 0.05, 0.3]), rng.choice(["eof", "reset"]), prior)))
        for _ in range(120 if q else 3000):
            traces.append(vt.run(lambda: probes(rng.randrange(1 << 30))))
    if sub == "D04":
        traces += loads(rng, 300 if q else 5000)
        traces.append(offline_bad())
    n = {"D01": 250, "D02": 420, "D03": 200, "D04": 200}[sub] if q else 6000
    for _ in range(n):
        traces.append(vt.run(lambda: history(rng.randrange(1 << 30))))
    ends = [e for t in traces for e in t["ev"] if e["k"] == "end"]
    chk.leg("driver", detects=len(ends), topologies=sum(e["out"] == "caps" for e in ends), mismatches=sum(e["out"] == "mismatch" for e in ends),
            failures=sum(e["out"] in ("timeout", "comm") for e in ends), probes=sum(e["k"] == "probe" for t in traces for e in t["ev"]),
            loads=sum(e["k"] == "load" for t in traces for e in t["ev"]))
    jobs = [lambda: chk.validate("TraceDetect", "SPECIFICATION Spec\n", traces, shards=8, timeout=6000)]
    jobs += [lambda: chk.model_check("MC_Detect", MC.format("TRUE"), leg="mc:high-voltage", workers=3, timeout=6000),
             lambda: chk.model_check("MC_Detect", MC.format("FALSE"), leg="mc:low-voltage", workers=3, timeout=6000)]
    rej = chk.parallel(*jobs)[0]
    chk.sample([{k: e[k] for k in e if k != "absent"} for e in traces[0]["ev"][:12]])
    chk.assumptions += ["a device answers a probe within the probe's timeout and budget or not at all",
                        "between detects on one client, what answered before answers with the same identity or falls silent (what a changed or blank identity does to held registers is M01, M02)"]
    report(chk, traces, rej)
