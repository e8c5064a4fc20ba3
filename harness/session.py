"""Client sessions recorded against a simulated network, validated against Session.tla."""
import asyncio
import errno
import random

import core
import vt
import wire

from givenergy_modbus.client.client import Client
from givenergy_modbus.exceptions import ConnectionLost
from givenergy_modbus.model.register import HR, IR, MR
from givenergy_modbus.pdu import ReadHoldingRegistersRequest, ReadInputRegistersRequest
from givenergy_modbus.pdu.read_registers import ReadMeterProductRegistersRequest
from givenergy_modbus.pdu.write_registers import WriteHoldingRegisterRequest

READ = {"rh": (ReadHoldingRegistersRequest, 3, HR), "ri": (ReadInputRegistersRequest, 4, IR),
        "rm": (ReadMeterProductRegistersRequest, 0x16, MR)}
TARGETS = [("ri", 0x11, 180, 60), ("ri", 0x12, 180, 60), ("rh", 0x11, 180, 60), ("rh", 0x11, 60, 60), ("ri", 0x11, 180, 30),
           ("ri", 0x11, 240, 60), ("rm", 0x01, 60, 30), ("rh", 0x11, 300, 1), ("w", 0x11, 20), ("w", 0x11, 27), ("w", 0x11, 35)]
ERRORS = [None, ConnectionResetError(104, "reset"), TimeoutError(errno.ETIMEDOUT, "timed out"), OSError(errno.EHOSTUNREACH, "no route"),
          BrokenPipeError(32, "pipe"), ConnectionAbortedError(103, "aborted")]


def shape(t):
    return ":".join(str(x) for x in (t if t[0] != "w" else t[:3]))


class Session:
    """Drives one client; everything observable goes into ``ev``."""

    def __init__(self, net, rng, wait=0.25, jitter=0.0, policy=None):
        self.net, self.rng = net, rng
        self.c = Client("h", 8899, tx_message_wait=wait, tx_jitter=jitter)
        self.wait, self.jitter = wait, jitter
        self.ev, self.tasks, self.rid, self.ids, self.data = [], {}, 0, 0, {}
        self.policy = policy or (lambda s, rec: [])
        self.hurt = set()
        self.up = False
        net.on_tx = self._tx

    def log(self, k, **kw):
        self.ev.append({"k": k, "t": round(vt.CLOCK.now * 1e6), **kw})

    # ---- what the server sees and sends
    def _tx(self, link, data):
        for r in wire.parse_tx(data):
            if r["k"] == "hb":
                f = f"hb:{r['type']}"
            elif r["k"] == "junk":
                f = "junk:" + r["hex"]
            else:
                f = f"{r['k']}:{r['dev']}:{r['a']}:{r['b']}"
            self.log("tx", frame=f, link=link.idx + 1)
            if r["k"] not in ("hb", "junk"):
                t = (r["k"], r["dev"], r["a"], r["b"])
                for lat, kind in self.policy(self, t):
                    asyncio.get_running_loop().call_later(lat, self.respond, link, t, kind)

    def respond(self, link, t, kind="ok"):
        """Deliver one response built for request ``t`` (kind, dev, a, b) in the given quality."""
        if not link.open or link.ended or link is not self.net.link or not self.up:
            return
        if kind == "err" and self.jitter:
            return      # an error answering a frame still queued starts a retry delay at an unobservable (jittered) moment
        self.rid += 1
        rid = self.rid
        k, dev, a, b = t
        m = {"kind": "resp", "err": False, "bad": False, "rid": rid, "frame": "", "type": 0, "val": ""}
        if kind == "null":
            data = wire.null_response(dev)
            m["kind"] = "null"
        elif kind == "lan":
            data = b"\x59\x59\x00\x01\x00\x03\x01\x07\x00"
            m["kind"] = "junk"
        else:
            if kind == "dev":
                dev = dev + 0x20
            elif kind == "base":
                a = a + 1
            elif kind == "count" and k != "w":
                b = b - 1 if b > 1 else 2
            elif kind == "func" and k in ("rh", "ri"):
                k = "ri" if k == "rh" else "rh"
            err, bad = kind == "err", kind == "bad" and k != "w"
            m["err"], m["bad"] = err, bad
            if k == "w":
                data = wire.write_response(dev, a, b, error=err)
                self.data[rid] = ("w", dev, a, b)
                m["val"] = str(b)
            elif err:
                data = wire.error_response(dev, READ[k][1], a, b)
            else:
                data = wire.read_response(dev, READ[k][1], a, [rid] * b, bad_crc=0x1357 if bad else 0)
                self.data[rid] = (k, dev, a, b)
            if bad:
                self.hurt.add(rid)
            m["shape"] = shape((k, dev, a, b))
        m.setdefault("shape", "")
        self.log("rx", m=m)
        link.rx(data)

    def heartbeat(self, kind=1):
        if not self.up:
            return
        self.log("rx", m={"kind": "hb", "shape": "", "err": False, "bad": False, "rid": 0, "frame": f"hb:{kind}", "type": kind, "val": ""})
        self.net.link.rx(wire.heartbeat(kind=kind))

    # ---- what the user does
    async def settle(self):
        for _ in range(12):
            await asyncio.sleep(0)

    async def call(self, t, timeout=2.0, retries=1, delay=0.5, probe=False):
        self.ids += 1
        i = self.ids
        r = {"val": str(t[3]) if t[0] == "w" else "", "shape": shape(t), "frame": ":".join(str(x) for x in t), "dev": t[1], "timeout": round(timeout * 1e6), "retries": retries,
             "delay": round(delay * 1e6), "probe": probe}
        if t[0] == "w":
            req = WriteHoldingRegisterRequest(register=t[2], value=t[3], device_address=t[1])
        else:
            req = READ[t[0]][0](base_register=t[2], register_count=t[3], device_address=t[1])
        kw = {} if not probe else {"warn_timeout": False}
        self.log("call", id=i, r=r)

        async def go():
            out, rids, plant, hurt = "other", [], False, False
            try:
                res = await self.c.send_request_and_await_response(req, timeout=timeout, retries=retries, retry_delay=delay, **kw)
                out, (rids, plant) = "ok", self.identify(t, res)
                hurt = bool(set(rids) & self.hurt)
            except asyncio.CancelledError:
                out = "cancelled"
            except ConnectionLost:
                out = "lost"
            except TimeoutError:
                out = "timeout"
            except Exception as e:  # noqa: BLE001
                out = "other"
                self.note = repr(e)
            self.log("done", id=i, out=out, rids=rids, plant=plant, hurt=hurt)

        self.tasks[i] = asyncio.create_task(go())
        await self.settle()
        return i

    def identify(self, t, res):
        """Which received response(s) carry exactly what was returned, and is it in the plant?"""
        k, dev, a, b = t
        cache = self.c.plant.register_caches.get(dev) or {}
        if k == "w":
            rids = [r for r, d in self.data.items() if d == ("w", res.device_address, res.register, res.value)]
            later = {d[3] for r, d in self.data.items() if d[:3] == ("w", dev, a) and rids and r >= min(rids)}
            return rids, not res.error and cache.get(HR(res.register)) in later
        got = list(res.register_values)
        ok = len(got) == b and len(set(got)) == 1 and (res.base_register, res.register_count, res.device_address) == (a, b, dev)
        rids = [got[0]] if ok and self.data.get(got[0]) == (k, dev, a, b) else []
        if self.hurt & set(rids):
            return rids, True
        if k == "rm":       # the plant takes note of meter-product responses but keeps no registers of theirs
            return rids, True
        # a still later response may have replaced the values since (response numbers only grow)
        return rids, all((cache.get(READ[k][2](x)) or 0) >= got[0] for x in (a, a + b - 1)) if got else False

    async def cancel(self, i):
        if not self.tasks[i].done():
            self.log("cancel", id=i)
            self.tasks[i].cancel()
            await self.settle()

    async def connect(self, fail=False):
        if self.up:
            self.log("close")
            self.up = False
        self.net.refuse = fail
        try:
            await self.c.connect()
            if fail:
                self.log("exc", what="connect succeeded without a server")
            else:
                self.up = True
                self.log("connect")
        except Exception as e:  # noqa: BLE001
            if not fail:
                self.log("exc", what=f"connect: {e!r}")
        self.net.refuse = False
        await self.settle()
        self.flag()

    async def close(self):
        self.log("close")
        self.up = False
        try:
            await self.c.close()
        except Exception as e:  # noqa: BLE001
            self.log("exc", what=f"close: {e!r}")
        if self.net.links and self.net.link.open:
            self.log("exc", what="socket left open by close()")
        await self.settle()
        self.flag()

    def flag(self):
        self.log("flag", up=bool(self.c.connected))

    async def eof(self):
        if self.up:
            self.log("eof")
            self.up = False
            self.net.link.eof()
            await self.settle()
            self.flag()

    async def reset(self, exc=None):
        if self.up:
            self.log("reset")
            self.up = False
            self.net.link.reset(exc)
            await self.settle()
            self.flag()

    def stall(self):
        if self.up:
            self.log("stall")
            self.net.link.stall()

    async def resume(self):
        if self.up:
            self.log("resume")
            self.net.link.resume()
            await self.settle()

    async def finish(self, tail=60.0):
        await asyncio.sleep(tail)
        self.up = bool(self.c.connected)
        self.flag()
        for i, t in self.tasks.items():
            if not t.done():
                self.log("done", id=i, out="never", rids=[], plant=False, hurt=False)
        self.log("end", retry=[{"dev": d, "n": n} for d, n in sorted(self.c.plant.retry_count.items()) if n])
        for t in asyncio.all_tasks():
            if t is not asyncio.current_task():
                t.cancel()
        await asyncio.sleep(0)
        fb = max(5.0, 20 * (self.wait + self.jitter) * 1.5)
        return {"gap": round(self.wait * 1e6), "jitter": round(self.jitter * 1e6), "fb": round(fb * 1e6), "ev": self.ev}


# ---- random sessions -------------------------------------------------------------
MIXES = {
    "plain": dict(faults=0, kinds=["ok"] * 6 + ["none", "late", "bad", "err"]),
    "noisy": dict(faults=0, kinds=["ok", "ok", "none", "late", "bad", "err", "dev", "base", "count", "func", "null", "dup", "lan", "okerr", "errok"]),
    "dead": dict(faults=0, kinds=["none", "none", "late", "err", "bad"]),
    "faults": dict(faults=3, kinds=["ok"] * 4 + ["none", "none", "late", "err"]),
}


def policy_for(kinds, jitter):
    def policy(s, t):
        rng = s.rng
        k = rng.choice(kinds)
        lat = rng.choice([0.0107, 0.0313, 0.1171, 0.3719, 0.9137, 1.7353]) + rng.randrange(1000) * 1e-6
        late = rng.choice([2.1713, 2.4371, 2.7713, 3.9137]) + rng.randrange(1000) * 1e-6
        if k == "none":
            return []
        if k == "late":
            return [(late, "ok")]
        if k == "dup":
            return [(lat, "ok"), (lat + 0.0513, "ok")]
        if k == "okerr":
            return [(lat, "ok"), (lat + 0.0717, "err")]
        if k == "errok":
            if jitter:
                return [(lat, "err")]
            return [(lat, "err"), (lat + rng.choice([0.0717, 0.3111]), "ok")]
        return [(lat, k)]
    return policy


async def random_session(seed, mix):
    rng = random.Random(seed)
    random.seed(seed)
    m = MIXES[mix]
    jitter = rng.choice([0.0, 0.0, 0.1])
    with vt.Net() as net:
        s = Session(net, rng, wait=rng.choice([0.25, 0.25, 0.05, 0.7]), jitter=jitter, policy=policy_for(m["kinds"], jitter))
        await s.connect()
        stalled = False
        targets = rng.sample(TARGETS, rng.randint(2, 6))
        val = 0
        for _ in range(rng.randint(6, 16)):
            x = rng.random()
            live = [i for i, t in s.tasks.items() if not t.done()]
            if x < 0.55 and len(live) < 15:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    t = rng.choice(targets)
                    if t[0] == "w":
                        val += 1
                        t = t + (val % 100,)
                    timeout = rng.choice([2.0, 2.0, 1.0, 0.5])
                    await s.call(t, timeout=timeout, retries=rng.choice([0, 1, 2, 3]), delay=rng.choice([0.5, 0.5, 0, 1.3]), probe=rng.random() < 0.25)
            elif x < 0.65:
                s.heartbeat(rng.choice([0, 1, 2, 255]))
            elif x < 0.70 and live:
                await s.cancel(rng.choice(live))
            elif m["faults"] and x < 0.95:
                y = rng.randrange(9)
                if y == 0:
                    await s.eof()
                elif y == 1:
                    await s.reset(rng.choice(ERRORS))
                elif y == 2:
                    await s.close()
                elif y in (3, 4, 5):
                    await s.connect()
                    stalled = False
                elif y == 6 and not s.up:
                    await s.connect(fail=True)
                elif y == 7 and not stalled:
                    s.stall()
                    stalled = True
                    await asyncio.sleep(rng.choice([0.5131, 3.1171, 9.2113, 12.3331]))
                elif y == 8 and stalled:
                    await s.resume()
                    stalled = False
            # unsolicited or unrelated traffic
            elif rng.random() < 0.3 and m["kinds"].count("ok") < 5 and s.up and not jitter:
                t = rng.choice(targets)
                s.respond(net.link, t + (7,) if t[0] == "w" else t, rng.choice(["ok", "err", "bad", "null"]))
                await s.settle()
            await asyncio.sleep(rng.choice([0, 0.0317, 0.1931, 0.4177, 1.1339, 2.6113]) + rng.randrange(997) * 1e-6)
            s.up = s.up and s.c.connected
        if stalled and s.up:
            await s.resume()
        return await s.finish()


CFG = "SPECIFICATION Spec\n"


def validate(chk, traces, leg, shards=8):
    rejected = chk.validate("TraceSession", CFG, [t for _, t in traces], leg=leg, shards=shards)
    n = 0
    for i, info in rejected:
        last = max((d["i"] for d in info), default=-1)
        clauses = sorted({c for d in info if d["i"] == last for c in d["clause"]})
        if any(c.startswith(chk.pid + ":") for c in clauses) or not info:
            n += 1
            ev = traces[i][1]["ev"]
            chk.violation(f"{traces[i][0]}: event {last} of {len(ev)} {ev[last - 1] if last > 0 else ''}: {clauses}",
                          replay={"scenario": traces[i][0], "at": last, "clauses": clauses, "want": [d["want"] for d in info if d["i"] == last][:2],
                                  "trace": traces[i][1]})
    return n


# ---- schedules generated from the specification -----------------------------------
U = 0.7
GEN = {"a": ("ri", 0x11, 180, 60), "b": ("rh", 0x12, 60, 60), "w": ("w", 0x11, 20)}
REQS_G = [("a", 2, 2, 1, False), ("b", 2, 1, 0, False), ("a", 3, 0, 1, False), ("w", 2, 1, 1, True), ("b", 1, 3, 2, False)]


async def gen_session(hist):
    """Play an environment schedule printed by GenSession (unit time U) against the real client."""
    with vt.Net() as net:
        s = Session(net, random.Random(1), wait=U, jitter=0.0)
        await s.connect()
        stalled = False
        t0 = vt.CLOCK.now
        ids, val = {}, 0
        for k, h in enumerate(hist):     # an offset of its own per action: no two things happen at once
            last = h["t"]
            due = t0 + h["t"] * U + 0.0007 + 0.0011 * k
            if due > vt.CLOCK.now:
                await asyncio.sleep(due - vt.CLOCK.now)
            s.up = s.up and s.c.connected
            a = h["a"]
            if a["k"] == "call":
                sh, to, re, de, pr = REQS_G[a["id"] - 1]
                val += 1
                ids[a["id"]] = await s.call(GEN[sh] + ((val,) if sh == "w" else ()), to * U, re, de * U, pr)
            elif a["k"] == "rx":
                t = GEN[a["sh"]]
                s.respond(net.link, t + (val,) if t[0] == "w" else t, {"other": "null"}.get(a["q"], a["q"]))
                await s.settle()
            elif a["k"] == "hb":
                s.heartbeat(last % 4)
                await s.settle()
            elif a["k"] == "lose":
                await (s.eof() if k % 2 else s.reset(ERRORS[last % len(ERRORS)]))
                stalled = False
            elif a["k"] == "close":
                await s.close()
                stalled = False
            elif a["k"] == "connect":
                await s.connect()
                stalled = False
            elif a["k"] == "stall":
                if stalled:
                    await s.resume()
                else:
                    s.stall()
                stalled = not stalled
            elif a["k"] == "cancel" and a["id"] in ids:
                await s.cancel(ids[a["id"]])
        s.up = s.up and s.c.connected
        return await s.finish()


# ---- particular situations ---------------------------------------------------------
OK = lambda lat: (lambda s, t: [(lat, "ok")])  # noqa: E731
MANY = [("ri", d, 180, n) for d in (0x11, 0x12, 0x13) for n in range(1, 21)]


def special(seed):
    """(name, coroutine function) of situations the random walks rarely reach."""
    rng = random.Random(f"special{seed}")

    def mk(policy, jitter=0.0, wait=0.25, fresh=False):
        def wrap(body):
            async def go():
                random.seed(seed)
                with vt.Net() as net:
                    s = Session(net, random.Random(seed), wait=wait, jitter=jitter, policy=policy)
                    if not fresh:
                        await s.connect()
                    await body(s, net)
                    return await s.finish()
            return go
        return wrap

    out = {}

    def case(name, policy=OK(0.1171), **kw):
        def deco(f):
            out[name] = mk(policy, **kw)(f)
            return f
        return deco

    n = rng.randint(38, 58)
    lat = rng.choice([0.0613, 0.1171, 0.4371]) + rng.randrange(500) * 1e-6

    @case("large batch", OK(lat), jitter=rng.choice([0.0, 0.1]))
    async def _(s, net):
        for t in MANY[:n]:
            await s.call(t, timeout=2.0, retries=rng.choice([0, 2]))

    for how in ("eof", "reset", "stall"):
        @case(f"large batch, {how}", OK(lat))
        async def _(s, net, how=how):
            for t in MANY[:n]:
                await s.call(t, timeout=2.0, retries=1)
            await asyncio.sleep(1.0313 + rng.random())
            if how == "stall":
                s.stall()
                await asyncio.sleep(11)
                s.up = s.c.connected
            else:
                await getattr(s, how)()
            await asyncio.sleep(1)
            await s.call(("rh", 0x11, 60, 60))
            await s.connect()
            await s.call(("rh", 0x11, 60, 60))

    @case("large batch, reconnect", OK(lat))
    async def _(s, net):
        for t in MANY[:n]:
            await s.call(t, timeout=2.0, retries=1)
        await asyncio.sleep(1.0313 + rng.random())
        await s.connect()
        await asyncio.sleep(0.5)
        await s.call(("rh", 0x11, 60, 60), retries=0)

    @case("large batch, close, reconnect", OK(lat))
    async def _(s, net):
        for t in MANY[:n]:
            await s.call(t, timeout=2.0, retries=1)
        await asyncio.sleep(1.0313 + rng.random())
        await s.close()
        await asyncio.sleep(rng.choice([0.01, 1.5, 3]))
        await s.connect()
        await s.call(("rh", 0x11, 60, 60), retries=0)

    @case("slow reconnect while retrying", lambda s, t: [(0.1171, "ok")] if s.net.link.idx else [])
    async def _(s, net):
        await s.call(("ri", 0x11, 180, 60), timeout=2.0, retries=3, delay=rng.choice([0, 0.5]))
        await s.call(("w", 0x11, 20, 7), timeout=1.0, retries=3, delay=0.5)
        await asyncio.sleep(rng.choice([0.7131, 1.7131]))
        net.slow = rng.choice([0.6131, 1.8317])
        if rng.random() < 0.5:
            await s.close()
        await s.connect()
        net.slow = 0
        await s.call(("rh", 0x11, 60, 60))

    @case("partial frame before the drop")
    async def _(s, net):
        cut = rng.randint(1, 60)
        net.link.rx(wire.read_response(0x11, 4, 180, [5] * 60)[:cut])
        await s.settle()
        await (s.eof if rng.random() < 0.5 else s.close)()
        await asyncio.sleep(1)
        await s.connect()
        for t in MANY[:3]:
            await s.call(t, timeout=1.0, retries=0)

    @case("newer write to the same register", lambda s, t: [(0.0613, "ok")] if t[0] == "w" else [(0.4, "ok")])
    async def _(s, net):
        await s.call(("w", 0x11, 27, 1))
        await asyncio.sleep(rng.choice([0, 0.0313]))
        await s.call(("ri", 0x11, 180, 60))
        await s.call(("w", 0x11, 27, 2))
        await asyncio.sleep(3)

    @case("never connected", fresh=True)
    async def _(s, net):
        if rng.random() < 0.5:
            await s.close()
        if rng.random() < 0.5:
            await s.connect(fail=True)
        await s.connect()
        await s.call(("rh", 0x11, 60, 60))

    @case("failed connects")
    async def _(s, net):
        await s.close()
        await s.close()
        await s.connect(fail=True)
        await s.connect(fail=True)
        await s.connect()
        await s.call(("rh", 0x11, 60, 60))
        await asyncio.sleep(1)
        await s.eof()
        await s.connect(fail=True)
        await s.call(("rh", 0x11, 60, 60))
        await s.close()
        await s.connect(fail=True)
        await s.connect()
        await s.call(("rh", 0x11, 60, 60))
        await asyncio.sleep(1)
        await s.connect(fail=True)
        await s.connect()
        await s.call(("rh", 0x11, 60, 60))

    for exc in ERRORS[1:]:
        @case(f"dies with {type(exc).__name__}")
        async def _(s, net, exc=exc):
            await s.call(("rh", 0x11, 60, 60), timeout=2)
            await asyncio.sleep(rng.choice([0.05, 1]))
            stall = rng.random() < 0.4
            if stall:
                s.stall()
                await s.call(("rh", 0x11, 60, 60), timeout=2)
                await s.call(("rh", 0x11, 240, 60), timeout=2)
                await asyncio.sleep(1)
            await s.reset(exc)
            await s.call(("rh", 0x11, 60, 60))
            if rng.random() < 0.5:
                await s.close()
            await s.connect()
            await s.call(("rh", 0x11, 60, 60))

    @case("stall shorter than the limit")
    async def _(s, net):
        s.stall()
        await s.call(("rh", 0x11, 60, 60), timeout=2, retries=1)
        await s.call(("ri", 0x11, 180, 60), timeout=2, retries=1)
        await asyncio.sleep(rng.choice([3.1, 6.9]))
        await s.resume()

    @case("stall beyond the limit", wait=rng.choice([0.05, 0.25, 0.7]))
    async def _(s, net):
        s.stall()
        for t in MANY[:rng.choice([1, 3])]:
            await s.call(t, timeout=2, retries=1)
        await asyncio.sleep(3)
        await s.call(("ri", 0x11, 240, 60))
        await asyncio.sleep(9)
        s.up = s.c.connected
        await s.call(("ri", 0x11, 240, 60))
        await s.connect()
        await s.call(("rh", 0x11, 60, 60))

    @case("stalled, then closed or lost")
    async def _(s, net):
        s.stall()
        for t in MANY[:3]:
            await s.call(t, timeout=2, retries=1)
        await asyncio.sleep(3)
        await rng.choice([s.close, s.eof, s.reset, s.connect])()
        await s.connect()
        await s.call(("rh", 0x11, 60, 60))

    @case("heartbeats among requests", OK(0.3171))
    async def _(s, net):
        for k in range(10):
            if k % 3 == 0:
                await s.call(MANY[k])
            s.heartbeat(rng.choice([0, 1, 2, 7, 255]))
            await s.settle()
            await asyncio.sleep(rng.choice([0, 0.1131, 0.5131]))

    for beats in (1, 3):
        @case(f"large batch, {beats} heartbeats", OK(lat), jitter=rng.choice([0.0, 0.1]))
        async def _(s, net, beats=beats):
            for t in MANY[:rng.choice([19, 21, 22, 30, n])]:
                await s.call(t, timeout=2.0, retries=rng.choice([0, 2]))
            for _ in range(beats):
                await asyncio.sleep(rng.choice([0, 0.0131, 0.5131, 1.0313]) + rng.randrange(97) * 1e-6)
                s.heartbeat(rng.choice([0, 1, 2, 7, 255]))
                await s.settle()

    for how in ("eof", "close", "connect"):
        @case(f"large batch, heartbeat, {how}", OK(lat))
        async def _(s, net, how=how):
            for t in MANY[:rng.choice([22, 30])]:
                await s.call(t, timeout=2.0, retries=0)
            await asyncio.sleep(0.0131)
            s.heartbeat(7)
            await s.settle()
            await asyncio.sleep(rng.choice([0.0131, 0.5131]))
            await getattr(s, how)()
            await asyncio.sleep(0.1)
            await s.connect()
            await asyncio.sleep(3)
            await s.call(("rh", 0x11, 60, 60))

    @case("queued answer", lambda s, t: [(0.0613, "ok"), (0.0931, "ok")])
    async def _(s, net):
        await s.call(("rh", 0x11, 60, 60), timeout=0.5, retries=3, delay=0)
        await s.call(("rh", 0x11, 60, 60), timeout=0.5, retries=3, delay=0)
        await s.call(("ri", 0x11, 180, 60), timeout=0.5, retries=3, delay=0)
        await asyncio.sleep(0.0777)
        await s.call(("rh", 0x11, 60, 60), timeout=0.5, retries=3, delay=0)
    return out


MC = """SPECIFICATION Spec
CONSTANTS
 Reqs <- {}
 MaxTime = {}
 MaxRx = {}
 MaxFault = {}
 GapC = 1
 JitC = 1
 Faults = {{{}}}
INVARIANTS OnlyOwnAnswer OneEach EndsOnce Budget Spaced TimeoutExhausted Silent Down Rate Fifo HbAnswered HbExact NoSpill
"""
ALL = '"lose", "close", "connect", "stall", "cancel"'
MODELS = {
    "C01": [("ReqsC", 4, 1, 0, '"lose"'), ("ReqsA", 5, 2, 0, '"lose"')],
    "C02": [("ReqsA", 5, 2, 0, '"lose"'), ("ReqsB", 5, 1, 0, '"lose"')],
    "C03": [("ReqsA", 5, 1, 1, '"lose", "stall"')],
    "C04": [("ReqsB", 5, 1, 0, '"lose"'), ("ReqsA", 5, 1, 1, '"stall", "cancel"')],
    "C05": [("ReqsA", 5, 1, 1, '"close", "connect", "cancel"')],
}
DEEP = {"C01": [("ReqsC", 4, 2, 1, '"cancel"')], "C02": [("ReqsA", 6, 2, 1, '"lose", "cancel"')], "C03": [("ReqsA", 6, 2, 1, ALL)],
        "C04": [("ReqsB", 5, 2, 1, '"stall", "lose"')], "C05": [("ReqsA", 5, 2, 2, '"close", "connect", "stall"')]}
# how many random sessions of each mix a property gets (quick); thorough runs ten times as many
SHARE = {"C01": (150, 300, 80, 100), "C02": (150, 150, 300, 80), "C03": (20, 20, 20, 600), "C04": (200, 200, 100, 150), "C05": (20, 20, 20, 600)}


def run(chk):
    scale = 1 if chk.quick else 12
    models = MODELS.get(chk.pid, []) + ([] if chk.quick else DEEP.get(chk.pid, []))
    traces = []

    def check_models():
        for m in models:
            chk.model_check("MC_Session", MC.format(*m), leg=f"model {m}", workers=4 if chk.quick else 8, heap="8g", timeout=3000)

    def replay():
        hists = []
        for f in ALL.split(", "):
            cfg = MC.format("ReqsG", 9, 5, 2, f if f == '"stall"' else f + ', "connect"').replace("SPECIFICATION Spec", "SPECIFICATION GSpec").split("INVARIANTS")[0]
            n = (12 if chk.quick else 150) if chk.pid in ("C01", "C02", "C04") or "cancel" not in f else 6
            hists += chk.generate("GenSession", cfg, leg=f"schedules {f}", simulate=f"num={n * 8}", workers=1,
                                  extra=("-depth", "90", "-seed", str(chk.seed)))
        for k, h in enumerate(hists):
            traces.append((f"schedule {k}: {core.json.dumps(h)[:300]}", vt.run(lambda: gen_session(h))))
        for mix, n in zip(MIXES, SHARE[chk.pid]):
            for k in range(n * scale):
                sd = f"{chk.seed}:{mix}:{k}"
                traces.append((sd, vt.run(lambda: random_session(sd, mix))))
        for k in range(6 * scale):
            for name, f in special(f"{chk.seed}:{k}").items():
                traces.append((f"{name} [{chk.seed}:{k}]", vt.run(f)))
        validate(chk, traces, "sessions")

    chk.parallel(check_models, replay)
    chk.sample({"session": traces[0][0], "events": traces[0][1]["ev"][:10]})
    chk.sample({"session": traces[-1][0], "events": traces[-1][1]["ev"][:10]})
    chk.leg("sessions", events=sum(len(t["ev"]) for _, t in traces), special=len(special("0")))
    chk.assumptions += ["network simulated in virtual time below asyncio.open_connection (real StreamReader/StreamWriter/protocol on top)",
                        "more than 20 outstanding requests only in the batch scenarios"]
