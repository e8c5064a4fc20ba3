"""Polls (load_config / refresh / refresh_plant) of the real client, validated against Poll.tla over Bank.tla."""
import asyncio
import random

import core
import splice
import vt
import wire
from bank import SA, WF, words

from givenergy_modbus.client.client import Client
from givenergy_modbus.exceptions import PlantNotDetected, RefreshFailed, RefreshPartiallySucceeded
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.plant import PlantCapabilities
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.pdu import ReadHoldingRegistersRequest, ReadInputRegistersRequest

FC = {"HR": 3, "IR": 4}
KIND = {"rh": "HR", "ri": "IR"}
REQ = {"HR": ReadHoldingRegistersRequest, "IR": ReadInputRegistersRequest}
MODELS = ["HYBRID", "AC", "HYBRID_3PH", "EMS", "AC_3PH", "GATEWAY", "ALL_IN_ONE", "HYBRID_GEN1", "HYBRID_GEN2", "HYBRID_GEN3", "POLAR",
          "AIO_COMMERCIAL", "EMS_COMMERCIAL", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID", "HYBRID_GEN4"]
SER = words(SA)


def caps_of(model, fw=-1, packs=(), bcu=-1, meters=(), stacks=(), aio=(), mods=()):
    return {"model": model, "fw": fw, "inv": 17, "packs": list(packs), "bcu": bcu, "meters": list(meters), "stacks": [list(x) for x in stacks],
            "aio": list(aio), "mods": list(mods)}


def build(c):
    return PlantCapabilities(device_type=Model[c["model"]], meter_addresses=c["meters"], lv_battery_addresses=c["packs"],
                             bcu_stacks=[tuple(x) for x in c["stacks"]], aio_battery_module_addresses=c["aio"], hv_bmu_addresses=c["mods"],
                             lv_bcu_address=None if c["bcu"] < 0 else c["bcu"], arm_firmware_version=None if c["fw"] < 0 else c["fw"])


def blk(b):
    return {"kind": b[0], "dev": b[1], "base": b[2], "n": b[3]}


class Poller:
    def __init__(self, net, rng):
        self.net, self.rng = net, rng
        self.c = Client("h", 8899, tx_message_wait=0.25, tx_jitter=0)
        self.ev, self.logs, self.fates, self.count = [], None, {}, {}
        self.after = lambda n: None
        self.ntx = 0
        self.default = ["ok"]
        net.on_tx = self._tx

    def now(self):
        return round(vt.CLOCK.now * 1000)

    async def settle(self):
        for _ in range(15):
            await asyncio.sleep(0)

    async def connect(self):
        await self.c.connect()
        self.ev.append({"k": "conn"})

    # ---- device
    def page(self, b):
        k, dev, base, n = b
        rng = self.rng
        if 50 <= dev <= 55 and (k, base, n) == ("IR", 60, 60):
            w = splice.chg(splice.base(), i40=rng.choice([55, 60]), i50=SER[0], i51=SER[1], i52=SER[2], i53=SER[3], i54=SER[4] + dev - 50)
            return w if rng.random() < 0.9 else splice.chg(w, i52=0)
        w = [rng.randrange(1, 3000) for _ in range(n)]
        for o in range(n):
            r = base + o
            j = r - 13 if k == "HR" else r - (114 if dev != 17 and dev < 112 else 138)
            if 0 <= j < 5:
                w[o] = SER[j]
        if rng.random() < 0.05:
            w = [0] * n
        return w

    def msg(self, b, w, err=False, bad=False):
        return {"k": b[0], "dev": b[1], "base": b[2], "w": [] if err else list(w), "err": err, "bad": bad, "null": False, "inv": SA, "ada": WF,
                "ts": self.now()}

    def answer(self, link, b, q):
        if not link.open or link.ended or link is not self.net.link or self.logs is None:
            return
        w = self.page(b)
        if q == "err":
            data = wire.error_response(b[1], FC[b[0]], b[2], b[3])
        else:
            data = wire.read_response(b[1], FC[b[0]], b[2], w, bad_crc=0x1234 if q == "bad" else 0)
        m = self.msg(b, w, q == "err", q == "bad")
        self.ev.append({"k": "rx", "good": q == "ok", **blk(b), "m": m})
        if q == "ok":
            self.logs.append(b)
        link.rx(data)

    def _tx(self, link, data):
        for r in wire.parse_tx(data):
            if r["k"] not in KIND or self.logs is None:
                self.ev.append({"k": "junk", "what": str(r)})
                continue
            b = (KIND[r["k"]], r["dev"], r["a"], r["b"])
            self.ev.append({"k": "tx", **blk(b)})
            n = self.count[b] = self.count.get(b, 0) + 1
            f = self.fates.get(b, self.default)
            q = f[min(n, len(f)) - 1]
            if q == "twice":
                for lat in (0.125, 0.25):
                    asyncio.get_running_loop().call_later(lat, self.answer, link, b, "ok")
            elif q == "near":                     # somebody else's answer, not ours
                near = (b[0], b[1], b[2], b[3] - 1)
                asyncio.get_running_loop().call_later(0.125, self.answer, link, near, "ok")
            elif q != "none":
                asyncio.get_running_loop().call_later(self.rng.choice([0.125, 0.375, 1.5]), self.answer, link, b, q)
            self.ntx += 1
            self.after(self.ntx)

    # ---- user
    def caps(self, c):
        self.c.plant.capabilities = build(c) if c else None
        self.ev.append({"k": "caps", "c": c or {"model": "none"}})

    def absent(self, b):
        self.c.plant.mark_absent(b[1], b[0], b[2], b[3])
        self.ev.append({"k": "absent", "dev": b[1], "kind": b[0], "base": b[2], "n": b[3]})

    def inval(self, b):
        self.c.plant.invalidate_presence(b[1], b[0], b[2], b[3])
        self.ev.append({"k": "inval", "dev": b[1], "kind": b[0], "base": b[2], "n": b[3]})

    async def fanout(self, b):
        """An answer to somebody else's poll."""
        if self.c.connected:
            w = self.page(b)
            self.ev.append({"k": "rx", "good": True, **blk(b), "m": self.msg(b, w)})
            self.net.link.rx(wire.read_response(b[1], FC[b[0]], b[2], w))
            await self.settle()

    async def poll(self, ops, maxage=None, old=False, retries=1, fates=None, chain=False, full=True, lose_at=None, cancel_at=None, rival=None, how="eof"):
        """ops: the polls run side by side; chain: refresh_plant."""
        up = self.c.connected
        self.logs, self.count, self.fates, self.ntx = [], {}, fates or {}, 0
        t = self.now()
        limit = -1 if maxage is None else round(maxage * 1000)
        self.ev.append({"k": "start", "t": t, "chain": chain, "retries": retries,
                        "parts": [{"op": o, "maxage": limit if o == "refresh" else -1} for o in ((["config"] if full else []) + ["refresh"] if chain else ops)]})
        mark = len(self.ev)
        cancelled = [False] * (2 if chain and full else 1 if chain else len(ops))
        kw = {"retries": retries, "retry_delay": 0.5, "timeout": 2.0}
        lost = [not up]

        async def one(op):
            p = self.c.plant
            res = {"op": op, "out": "other", "plant": False, "failures": [], "cancelled": False}
            try:
                if op == "config":
                    r = await self.c.load_config(**kw)
                elif op == "refresh":
                    extra = {} if maxage is None else {"max_age": maxage, "ir0_max_age": 1e6 if maxage < 60 else 0} if old == "both" else {"ir0_max_age" if old else "max_age": maxage}
                    r = await self.c.refresh(**kw, **extra)
                else:
                    r = await self.c.refresh_plant(full, **kw)
                res["out"], res["plant"] = "ok", r is p
            except asyncio.CancelledError:
                res["out"] = "cancelled"
            except PlantNotDetected:
                res["out"] = "undetected"
            except (RefreshPartiallySucceeded, RefreshFailed) as e:
                res["out"] = "partial" if isinstance(e, RefreshPartiallySucceeded) else "failed"
                res["plant"] = getattr(e, "plant", None) is p
                res["failures"] = [{"kind": {"ReadHoldingRegistersRequest": "HR", "ReadInputRegistersRequest": "IR"}.get(f.request_type, f.request_type),
                                    "dev": f.device_address, "base": f.base_register, "n": f.register_count} for f in e.failures]
            except Exception as e:  # noqa: BLE001
                res["out"] = f"other: {e!r}"[:200]
            return res

        tasks = [asyncio.create_task(one(op)) for op in (["plant"] if chain else ops)]
        rivals = []

        def hook(n):
            if n == lose_at:
                lost[0] = True
                link = self.net.link
                asyncio.get_running_loop().call_soon(link.eof if how == "eof" else link.reset)
            if n == cancel_at and not tasks[0].done():
                cancelled[0] = True
                tasks[0].cancel()
            if rival and n == 1:
                async def go():
                    try:
                        await self.c.send_request_and_await_response(REQ[rival[0]](base_register=rival[2], register_count=rival[3], device_address=rival[1]),
                                                                     timeout=2.0, retries=0)
                    except BaseException:  # noqa: BLE001
                        pass
                cancelled[0] = True
                rivals.append(asyncio.create_task(go()))

        self.after = hook
        parts = [await x for x in tasks]
        for x in rivals:
            await x
        log, self.logs = self.logs, None
        self.after = lambda n: None
        if chain:       # one result for the parts of refresh_plant: the first part that did not succeed carries it
            p0 = parts[0]
            if full:
                later = any(x["k"] == "tx" and x["kind"] == "IR" and x["base"] != 120 for x in self.ev[mark:])
                if p0["out"] != "ok" and not later:
                    parts = [dict(p0, op="config"), dict(p0, op="refresh", out="skipped", failures=[])]
                else:
                    parts = [dict(p0, op="config", out="ok", plant=True, failures=[]), dict(p0, op="refresh")]
            else:
                parts = [dict(p0, op="refresh")]
        for x, cn in zip(parts, cancelled):
            x["cancelled"] = cn
        have = []
        for b in log:
            c = self.c.plant.register_caches.get(b[1]) or {}
            R = HR if b[0] == "HR" else IR
            vals = [c.get(R(b[2] + o)) for o in range(b[3])]
            have.append({**blk(b), "w": [-1 if v is None else v for v in vals]})
        self.ev.append({"k": "end", "parts": parts, "whole": not lost[0] and not any(cancelled), "have": have})
        await self.settle()


def pool_of(c):
    """Blocks worth disturbing for a topology; superset of what is asked for."""
    out = [("HR", 17, 0, 60), ("HR", 17, 60, 60), ("HR", 17, 120, 60), ("IR", 17, 120, 60), ("IR", 17, 0, 60), ("IR", 17, 180, 60)]
    if "3PH" in c["model"] or c["model"] in ("AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"):
        out += [("HR", 17, 1000, 60), ("HR", 17, 1120, 5), ("IR", 17, 1000, 60), ("IR", 17, 1360, 54), ("IR", 17, 1300, 60)]
    if "EMS" in c["model"]:
        out += [("HR", 17, 2040, 36), ("IR", 17, 2040, 55)]
    if c["model"] == "GATEWAY":
        out += [("IR", 17, 1600, 60), ("IR", 17, 1840, 20)]
    out += [("HR", 17, 240, 60), ("HR", 17, 300, 60)]
    out += [("IR", d, 60, 60) for d in [*c["packs"], *c["aio"], *c["mods"], *([c["bcu"]] if c["bcu"] >= 0 else [])]]
    out += [("IR", d, 60, 30) for d in c["meters"]] + [("IR", 112 + x[0], 60, 60) for x in c["stacks"]]
    return out


def rand_caps(rng):
    return caps_of(rng.choice(MODELS), rng.choice([-1, 0, 302, 303, 449, 920]), rng.choice([[], [50], [50, 51], [50, 52, 55]]), rng.choice([-1, -1, 49]),
                   rng.choice([[], [], [1], [1, 2, 8]]), rng.choice([[], [], [(0, 2)], [(0, 1), (1, 3)], [(3, 2)]]),
                   *rng.choice([([], []), ([], []), ([80, 81, 82, 83], []), ([], [80]), ([], [82, 111])]))


def rand_fates(rng, pool):
    f = {}
    if rng.random() < 0.15:
        return {b: ["none"] for b in pool}, ["none"]
    if rng.random() < 0.1:
        return {b: [rng.choice(["none", "err", "bad", "near"])] for b in pool}, ["none"]
    for b in rng.sample(pool, rng.randint(0, min(5, len(pool)))):
        f[b] = rng.choice([["none"], ["err"], ["bad"], ["none", "ok"], ["err", "ok"], ["bad", "ok"], ["near", "ok"], ["near"], ["none", "none", "ok"],
                           ["none", "err", "bad", "ok"], ["twice"], ["ok"]])
    return f, ["ok"]


async def plain(c, rng):
    """One quiet round of everything."""
    with vt.Net() as net:
        p = Poller(net, rng)
        await p.connect()
        p.caps(c)
        await p.poll(["config"])
        await p.poll(["refresh"])
        await p.poll([], chain=True, full=rng.random() < 0.5)
        await p.poll(["refresh"], maxage=1000)
        await p.c.close()
        return {"ev": p.ev}


async def history(seed):
    rng = random.Random(seed)
    with vt.Net() as net:
        p = Poller(net, rng)
        c = rand_caps(rng)
        pool = pool_of(c)
        if rng.random() < 0.1:
            for op in ("config", "refresh"):
                await p.poll([op])
            await p.connect()
            for op in ("config", "refresh"):
                await p.poll([op], maxage=rng.choice([None, 5]) if op == "refresh" else None)
        if rng.random() < 0.95 and not p.c.connected:
            await p.connect()
        p.caps(c)
        for _ in range(rng.randint(3, 7)):
            x = rng.random()
            if x < 0.5 or not p.c.connected:
                fates, p.default = rand_fates(rng, pool)
                kw = dict(retries=rng.choice([0, 1, 1, 2, 3]), fates=fates)
                y = rng.random()
                if y < 0.12:
                    await p.poll(["config", "refresh"], **kw)
                elif y < 0.2 and p.c.connected:
                    await p.poll([], chain=True, full=rng.random() < 0.6, **kw)
                elif y < 0.45:
                    await p.poll(["config"], **kw)
                else:
                    await p.poll(["refresh"], maxage=rng.choice([None, None, 0, 0.5, 10, 30, 60.0, 300, 1e6]), old=rng.choice([False, False, True, "both"]), **kw)
            elif x < 0.58:
                b = rng.choice(pool)
                p.absent(b if rng.random() < 0.8 else (b[0], b[1], b[2], b[3] - 1))
            elif x < 0.63:
                b = rng.choice(pool)
                p.inval(b)
            elif x < 0.78:
                b = rng.choice(pool)
                await p.fanout(b if rng.random() < 0.8 else (b[0], b[1], b[2], b[3] - 1))
            elif x < 0.85:
                c = rand_caps(rng) if rng.random() < 0.8 else c
                p.caps(c)
                pool = pool_of(c)
            elif x < 0.93:
                fates, p.default = rand_fates(rng, pool)
                await p.poll([rng.choice(["config", "refresh"])], fates=fates, lose_at=rng.choice([1, 2, 3, 5, 8]), how=rng.choice(["eof", "reset"]))
            elif rng.random() < 0.5:
                await p.c.close()
                p.ev.append({"k": "conn"})
            if rng.random() < 0.6 and not p.c.connected:
                await p.connect()
            await asyncio.sleep(rng.choice([0, 0.5, 10, 30, 60, 299.5, 300, 1000]))
        if p.c.connected and rng.random() < 0.3:
            if rng.random() < 0.5:
                await p.poll([rng.choice(["config", "refresh"])], cancel_at=rng.choice([1, 2, 4]), fates={b: ["none"] for b in pool})
            else:
                p.default = ["ok"]
                op = rng.choice(["config", "refresh"])
                b = ("HR", 17, 0, 60) if op == "config" else None
                if b:
                    await p.poll([op], rival=b, fates={b: ["ok"]})
        await p.c.close()
        return {"ev": p.ev}


async def boundary(seed):
    """Ages exactly at, just under and just over the maximum."""
    rng = random.Random(seed)
    with vt.Net() as net:
        p = Poller(net, rng)
        await p.connect()
        c = caps_of("HYBRID_GEN1", 449, [50], -1, [2])
        p.caps(c)
        for lim in (30, 0.5, 0):
            for b in pool_of(c):
                if b[0] == "IR" and b != ("IR", 17, 120, 60):
                    await p.fanout(b)
            for d in (-0.125, 0, 0.125):
                t = p.now()
                await p.fanout(("IR", 17, 0, 60))
                await asyncio.sleep(max(0, lim + d))
                await p.poll(["refresh"], maxage=lim, old=rng.random() < 0.5)
                await asyncio.sleep(1)
        await p.c.close()
        return {"ev": p.ev}


MC = """SPECIFICATION Spec
CONSTANT Small = {}
INVARIANTS Truthful NothingDropped WellFormed NotExposed OnlyIdentityAlways NeverAbsent EverythingElse SentOnlyAsked
"""


def run(chk):
    rng = random.Random(chk.seed * 15485863 + 11)
    random.seed(chk.seed)
    n = 220 if chk.quick else 6000
    traces = []
    fws = [-1, 302, 303] if chk.quick else [-1, 0, 1, 301, 302, 303, 304, 449, 612, 1920, 65535]
    for m in MODELS:
        for fw in fws:
            traces.append(vt.run(lambda m=m, fw=fw: plain(caps_of(m, fw), rng)))
    for _ in range(25 if chk.quick else 400):
        traces.append(vt.run(lambda: plain(rand_caps(rng), rng)))
    for _ in range(2 if chk.quick else 20):
        traces.append(vt.run(lambda: boundary(rng.randrange(1 << 30))))
    for _ in range(n):
        traces.append(vt.run(lambda: history(rng.randrange(1 << 30))))
    chk.leg("driver", polls=sum(e["k"] == "end" for t in traces for e in t["ev"]), events=sum(len(t["ev"]) for t in traces))
    jobs = [lambda: chk.model_check("MC_Poll", MC.format("FALSE"), leg="mc:all-plants", workers=3, timeout=6000),
            lambda: chk.model_check("MC_Poll", MC.format("TRUE"), leg="mc:running", workers=3, timeout=6000),
            lambda: chk.validate("TracePoll", "SPECIFICATION Spec\n", traces, shards=8, timeout=6000)]
    rej = chk.parallel(*jobs)[2]
    chk.sample([{k: e[k] for k in e if k not in ("m", "have")} for e in traces[0]["ev"][:12]])
    chk.assumptions += ["answers arrive within the request's timeout or not at all (late answers: C01, C02)",
                        "which of the registers of an answered read the plant then keeps is the store's rule (Bank.tla), followed exactly"]
    report(chk, traces, rej)


def report(chk, traces, rej):
    for tid, info in rej:
        for d in info or [{"clause": [chk.pid + ":not-explained"], "i": 0, "want": "?"}]:
            for c in d["clause"]:
                pid, what = c.split(":", 1)
                if pid == chk.pid:
                    ev = traces[tid]["ev"][: d["i"]]
                    last = ev[-1] if ev else {}
                    brief = [(x["op"], x["out"]) for x in last.get("parts", [])]
                    chk.violation(f"event #{d['i']} of run {tid}: {what} {brief}", replay={"clause": c, "want": d["want"], "events": ev})
