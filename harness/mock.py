"""The mock plant: seeding, answering, telling devices apart and identifying registers, validated against Mock.tla."""
import asyncio
import os
import random
import tempfile

import vt
import wire
from bank import regkey
from detect import Site, rand_plant
from poll import report
from splice import base as pack_page
from splice import chg

from givenergy_modbus.client.client import Client
from givenergy_modbus.exceptions import CommunicationError
from givenergy_modbus.model.register import HR, IR, MR
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.testing.identify import identify, sentinel_devices
from givenergy_modbus.testing import mock_plant
from givenergy_modbus.testing.mock_plant import MockPlant

B = lambda s: list(s.encode("latin1"))  # noqa: E731
KINDS = {"HR": HR, "IR": IR, "MR": MR}
FCS = {"HR": 3, "IR": 4, "MR": 0x16}
NONE = B("MK0000G000")
NAMES = ["SA1234G567", "WF9876G543", "CE1", "", "AB1234G567X"]


def devs(caches):
    return [[d, sorted([regkey(r), v] for r, v in c.items())] for d, c in sorted(caches.items())]


def cache(regs):
    return RegisterCache({(HR, IR, MR)[k >> 16](k & 0xFFFF): v for k, v in regs.items()})


def ser5(s):
    b = s.encode("latin1")[:10].ljust(10, b"\0")
    return [b[i] << 8 | b[i + 1] for i in range(0, 10, 2)]


# ---- conversations ------------------------------------------------------------------
async def settle(n=25):
    for _ in range(n):
        await asyncio.sleep(0)


class Talk:
    def __init__(self, mock, conns, rng):
        self.mock, self.rng, self.ev = mock, rng, []
        self.n = conns

    async def open(self):
        self.ev.append({"k": "serve", "devs": devs(self.mock.devices), "inv": B(self.given[0]), "ada": B(self.given[1]), "none": NONE, "conns": self.n})
        await self.mock.start()
        srv = list(asyncio.get_running_loop().servers.values())[-1]
        self.out = [bytearray() for _ in range(self.n)]
        self.ends = [srv.call(lambda b, o=o: o.extend(b)) for o in self.out]
        return self

    async def say(self, conn, data):
        if not data:
            return
        self.out[conn].clear()
        self.ends[conn].protocol.data_received(bytes(data))
        await settle()
        await asyncio.sleep(0.5)
        self.ev.append({"k": "chunk", "conn": conn + 1, "data": list(data), "got": list(self.out[conn]), "open": not self.ends[conn].closing})


def rand_seed(rng):
    seed = {}
    for d in rng.sample([1, 17, 17, 49, 50, 51, 80, 112, 160, 0, 255], rng.randint(1, 4)):
        c = seed.setdefault(d, {})
        for _ in range(rng.choice([0, 1, 2, 3])):
            k, base, n = rng.randrange(3), rng.choice([0, 60, 120, 1000, 65500, 2040, 65535 - 59]), rng.choice([1, 5, 30, 60, 60])
            for j in range(n):
                if base + j < 65536:
                    c[k << 16 | base + j] = rng.choice([0, 1, 0xFFFF, rng.randrange(65536)])
        for x in list(c):
            if rng.random() < 0.01:
                del c[x]
    return seed


def ask(rng, seed):
    x = rng.random()
    d = rng.choice(list(seed) * 4 + [17, 2, 50])
    if x < 0.68:
        kind = rng.choice(["HR", "IR", "HR", "IR", "MR"])
        held = [k for k in seed.get(d, {}) if k >> 16 == ("HR", "IR", "MR").index(kind)]
        base = rng.choice(held) & 0xFFFF if held and rng.random() < 0.8 else rng.choice([0, 60, 120, 1000, 65535, 65500])
        if held and rng.random() < 0.4:
            base = min(k & 0xFFFF for k in held)
        return wire.read_request(d, FCS[kind], base, rng.choice([1, 1, 2, 5, 30, 59, 60]))
    if x < 0.85:
        held = [k for k in seed.get(d, {}) if k < 65536]
        return wire.write_request(d, rng.choice([20, 27, 96, 116, 1122, 2040, rng.choice(held or [50])]), rng.choice([0, 1, 100, 65535]))
    if x < 0.9:
        return wire.heartbeat("AB1234G567")
    if x < 0.93:
        return wire.read_request(d, 5, 0, 1)
    if x < 0.96:
        return wire.read_request(d, rng.choice([3, 4]), 0, rng.choice([0, 61, 65535]))
    return bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 19, 40]))).replace(b"\x59\x59", b"\0\0")


def serve(rng):
    async def main():
        seed = rand_seed(rng)
        given = rng.choice(NAMES), rng.choice(NAMES)
        mock = MockPlant({d: cache(c) for d, c in seed.items()}, inverter_serial=given[0], adapter_serial=given[1])
        t = Talk(mock, rng.choice([1, 1, 2, 3]), rng)
        t.given = given
        await t.open()
        left = [b""] * t.n
        for _ in range(rng.randint(4, 9)):
            c = rng.randrange(t.n)
            left[c] += b"".join(ask(rng, seed) for _ in range(rng.choice([1, 1, 1, 2, 4])))
            cut = len(left[c]) if rng.random() < 0.6 else rng.randrange(1, len(left[c]) + 1)
            await t.say(c, left[c][:cut])
            left[c] = left[c][cut:]
        for c in range(t.n):
            await t.say(c, left[c])
            await t.say(c, ask(rng, seed))
        await mock.aclose()
        return {"ev": t.ev}
    return vt.run(main)


# ---- captures -----------------------------------------------------------------------
def modules(rng, ds, lo, kinds):
    """Pages with a serial in five registers from ``lo``; often the same one in several places."""
    out = []
    pool = rng.sample(["BG0000G000", "BG0000G000", "HY2301A001", "ce1234g567", "BG00", "", "X", "BG0000G052", "BG00 00G00 ", "BG0000G0RQ"], 3)
    for d in ds:
        out.append((d, rng.choice(pool) if rng.random() < 0.8 else rng.choice(kinds)))
    return out


def frames(rng):
    out = []
    main = rng.choice([17, 17, 49, 0x2F])

    def say(d, kind, base, ws):
        out.append(wire.read_response(d, FCS[kind], base, ws, inv=rng.choice(["SA1234G567", "SA1234G567", "CE7654G321"]), adapter="WF1234G567", bad_crc=0x55 if rng.random() < 0.06 else 0))

    if rng.random() < 0.9:
        g = [rng.randrange(65536) for _ in range(60)]
        g[13:18] = ser5("SA1234G567")
        say(main, "HR", 0, g)
    for _ in range(rng.choice([0, 1, 2])):
        say(main, "IR", rng.choice([60, 180, 240]), [rng.randrange(1, 3000) for _ in range(rng.choice([60, 60, 20]))])
    if rng.random() < 0.6:
        for d, s in modules(rng, range(50, 50 + rng.randint(1, 6)), 110, ["BG2236D111"]):
            g = chg(pack_page(), **{f"_{50 + j}": w for j, w in enumerate(ser5(s))})
            for _ in range(rng.choice([1, 2, 2, 2])):
                say(d, "IR", 60, g)
    if rng.random() < 0.5:
        for d, s in modules(rng, rng.sample(range(80, 112), rng.randint(1, 5)), 114, ["HY2236D111"]):
            g = [rng.randrange(1, 3000) for _ in range(60)]
            g[54:59] = ser5(s)
            say(d, "IR", 60, g[:rng.choice([60, 60, 60, 56])])
    if rng.random() < 0.5:
        g = [rng.randrange(1, 3000) for _ in range(55)]
        for j, (_, s) in enumerate(modules(rng, range(4), 0, ["SA2236D111", "          "])):
            g[26 + 5 * j:31 + 5 * j] = ser5(s)
        say(17, "IR", 2040, g)
    if rng.random() < 0.3:
        out.append(wire.write_response(main, 96, 1))
    if rng.random() < 0.3:
        out.append(wire.error_response(main, 4, 1000, 60))
    if rng.random() < 0.3:
        out.append(wire.heartbeat("WF1234G567"))
    if rng.random() < 0.2:
        out.append(wire.read_response(2, 0x16, 60, [5] * 10))
    if rng.random() < 0.25:
        rng.shuffle(out)
    return out


def capture(rng):
    dated = rng.random() < 0.8
    lines, t = [], 1000
    fs = frames(rng) if rng.random() < 0.95 else []
    data = b""
    for f in fs:
        data += (bytes(rng.randrange(0x58) for _ in range(rng.choice([3, 25]))) if rng.random() < 0.08 else b"") + f
        if rng.random() < 0.7:
            at = [len(data)] if rng.random() < 0.6 else sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.choice([1, 2, 3])))) + [len(data)]
            for a, b in zip([0, *at[:-1]], at):
                t += rng.choice([0, 1, 5, 700])
                lines.append({"t": t, "rx": True, "ok": True, "b": data[a:b]})
            data = b""
    if data:
        lines.append({"t": t + 1, "rx": True, "ok": True, "b": data})
    if rng.random() < 0.15 and fs:
        lines.append({"t": t + 2, "rx": True, "ok": True, "b": fs[0][:rng.randrange(8, len(fs[0]))]})
    if not dated:
        for x in lines:
            x["t"] = 0
    for _ in range(rng.choice([0, 2, 6])):
        b = wire.read_request(17, 3, 0, 60)
        lines.insert(rng.randint(0, len(lines)), {"t": rng.randint(1000, t) if dated else 0, "rx": False, "ok": True, "b": b})
    for _ in range(rng.choice([0, 0, 2])):
        lines.insert(rng.randint(0, len(lines)), {"t": rng.randint(1000, t) if dated else 0, "rx": True, "ok": False, "b": b""})
    files = [lines]
    if len(lines) > 2 and rng.random() < 0.4:
        c = rng.randrange(1, len(lines))
        files = [lines[:c], lines[c:]] if not dated or rng.random() < 0.5 else [lines[c:], lines[:c]]
    if dated and rng.random() < 0.2:      # several recorders, written out in no particular order, but each instant by one only
        seen = {}
        for x in lines:
            seen.setdefault(x["t"], []).append(x)
        groups = list(seen.values())
        rng.shuffle(groups)
        files = [[x for g in groups for x in g]]
    return dated, files


def text(rng, dated, lines):
    out = []
    for x in lines:
        d = rng.choice(["rx", "rx:", "RX"]) if x["rx"] else rng.choice(["tx", "tx:"])
        h = x["b"].hex() if x["ok"] else rng.choice(["zz", "abc", "5959000"])
        s = f"{d} {h.upper() if rng.random() < 0.2 else h}"
        out.append(f"2026-01-01T{x['t'] // 3600:02d}:{x['t'] // 60 % 60:02d}:{x['t'] % 60:02d} {s}" if dated else s)
        if rng.random() < 0.05:
            out.append(rng.choice(["", "# a comment", "something else entirely here", "rx", "2026-01-01T00:00:00"]))
    return "\n".join(out) + rng.choice(["", "\n"])


def captured(rng, tmp):
    dated, files = capture(rng)
    paths = []
    for n, ls in enumerate(files):
        paths.append(os.path.join(tmp, f"c{n}.log"))
        with open(paths[-1], "w", encoding="utf-8") as f:
            f.write(text(rng, dated, ls))
    e = {"k": "capture", "lines": [{**x, "b": list(x["b"])} for ls in files for x in ls], "out": "ok", "held": [], "devs": [], "inv": [], "ada": [], "none": NONE}
    try:
        e["held"] = devs(mock_plant.plant_from_capture(*paths).register_caches)
        m = MockPlant.from_capture(*paths)
        e.update(devs=devs(m.devices), inv=B(m.inverter_serial), ada=B(m.adapter_serial))
    except ValueError:
        e["out"] = "ValueError"
    return e


# ---- seeds written down -----------------------------------------------------------------
def written(rng):
    banks = []
    for _ in range(rng.randint(1, 4)):
        d, kind, base = rng.choice([17, 17, 49, 50, 51, 80, 112, 2]), rng.choice(["HR", "IR", "IR", "IR", "HR", "MR"] if rng.random() < 0.2 else ["HR", "IR"]), rng.choice([0, 60, 60, 60, 120, 1000])
        n = rng.choice([60, 60, 60, 5, 1, 30])
        if 50 <= d < 56 and kind == "IR" and base == 60 and rng.random() < 0.85:
            ws = pack_page()
            for _ in range(rng.choice([0, 0, 1, 3])):
                ws[rng.randrange(60)] = rng.choice([0, 1, 65535, 2700, 3400, 250])
            ws = ws[:n]
        elif rng.random() < 0.15:
            ws = [0] * n
        else:
            ws = [rng.randrange(65536) for _ in range(n)]
            if rng.random() < 0.7:
                for at in (13, 114 - base, 110 - base, 138 - base):
                    if 0 <= at <= n - 5:
                        ws[at:at + 5] = ser5("SA1234G567")
        if rng.random() < 0.06:
            ws[rng.randrange(n)] = rng.choice([-1, 65536, 2.0, "7", None, 70000])
        banks.append((d, kind, base, ws))
    if rng.random() < 0.2:
        d, kind, base, ws = rng.choice(banks)
        banks.append((d, kind, max(0, base - 3), [9] * 6))
    verify = rng.random() < 0.7
    seed = {}
    for d, kind, base, ws in banks:
        seed.setdefault(d, {}).pop((KINDS[kind], base), None)
        seed[d][(KINDS[kind], base)] = ws
    order = [(d, r.__name__, base, ws) for d, bs in seed.items() for (r, base), ws in bs.items()]
    inv, ada = rng.choice(NAMES[:2]), rng.choice(NAMES[:2])
    e = {"k": "spec", "banks": [{"dev": d, "kind": k, "base": b, "vals": [w if isinstance(w, int) else -1 for w in ws]} for d, k, b, ws in order], "verify": verify,
         "inv": B(inv), "ada": B(ada), "out": "ok", "devs": []}
    try:
        e["devs"] = devs(MockPlant.from_spec(seed, verify=verify, inverter_serial=inv, adapter_serial=ada).devices)
    except ValueError:
        e["out"] = "ValueError"
    except Exception as x:  # noqa: BLE001
        e["out"] = f"{x!r}"[:150]
    return e


# ---- sentinels ------------------------------------------------------------------------------
def sentinel(rng):
    base = {d: cache(c) for d, c in rand_seed(rng).items()}
    lay = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        lo = rng.choice([0, 60, 200, 64500, 65000, 1000])
        lay.append((rng.choice([17, 49, 50, 2]), rng.choice(list(KINDS)), lo, min(65535, lo + rng.choice([0, 5, 59, 30]))))
    offset = rng.choice([0, 0, 1000, 1, 500, 65000, -1, -60])
    e = {"k": "sentinel", "base": devs(base), "overlay": [{"dev": d, "kind": k, "lo": lo, "hi": hi} for d, k, lo, hi in lay], "offset": offset, "out": "ok", "devs": [], "after": []}
    try:
        got = sentinel_devices(base, [(d, KINDS[k], range(lo, hi + 1)) for d, k, lo, hi in lay], offset=offset)
        e["devs"] = devs(got)
        for c in got.values():      # what was handed out is the caller's own
            c.clear()
    except ValueError:
        e["out"] = "ValueError"
    e["after"] = devs(base)
    return e


SCALE = {1: 0.001, 10: 0.01, 100: 0.1, 1000: 1.0}


def identified(rng):
    s = rng.choice(list(SCALE))
    a = rng.choice([0, 1, 9, 10, 100, 1000, 65535, 64535, 242, 2420, rng.randrange(65536), rng.randrange(3000)])
    k = rng.choice([1000, 1000, 1, 7, 100, 12345])
    d1, d2 = a * s, (a + k) * s
    if rng.random() < 0.15:
        d2 = rng.choice([d1, d1 - k, d1 + k * 4000, d1 + 50 * k, d1 + 3 * k])
    if rng.random() < 0.15:
        d1 += rng.choice([5, 50])
        d2 += 50 if rng.random() < 0.5 else 0
    two = rng.random() < 0.6
    r = [] if rng.random() < 0.6 else [[max(0, a - rng.choice([0, 5, 100])), a + rng.choice([0, 5, -1])]]
    show = (lambda d: d / 1000) if rng.random() < 0.7 else (lambda d: (d // s) * SCALE[s] if d % s == 0 and d >= 0 else d / 1000)
    e = {"k": "identify", "d1": d1, "d2": d2, "two": two, "range": r, "out": "ok", "got": []}
    e["k"] = "identify"
    try:
        kw = {"reg_range": range(r[0][0], r[0][1] + 1)} if r else {}
        got = identify(show(d1), show(d2), k=k, **kw) if two else identify(show(d1), **kw)
        e["got"] = [[c.address, round(c.scale * 1000), c.confidence] for c in got]
    except Exception as x:  # noqa: BLE001
        e["out"] = f"{x!r}"[:150]
    return {**e, "kk": k}


# ---- a client on a mock -----------------------------------------------------------------------
def client(rng):
    async def main():
        dev, _ = rand_plant(rng, plain=True)
        with vt.Net() as net:
            site = Site(net, rng)
            site.plant(dev)
            caches = {}
            for d in dev:
                c = caches.setdefault(d, {})
                for kind, base in [("HR", 0), ("HR", 60), ("HR", 120), ("HR", 180), ("HR", 240), ("IR", 0), ("IR", 60), ("IR", 120), ("IR", 180), ("IR", 1600), ("IR", 2040)]:
                    if (kind, base) != ("HR", 0) and d == 17 and rng.random() < 0.3:
                        continue
                    for j, w in enumerate(site.page((kind, d, base, 60))):
                        c[("HR", "IR").index(kind) << 16 | base + j] = w
            mock = MockPlant({d: cache(c) for d, c in caches.items()}, inverter_serial="SA1234G567", adapter_serial="WF1234G567")
            t = Talk(mock, 1, rng)
            t.given = ("SA1234G567", "WF1234G567")
            await t.open()
            srv = list(asyncio.get_running_loop().servers.values())[-1]
            ends = {}

            def tx(link, data):
                if link not in ends:
                    ends[link] = srv.call(link.rx)
                ends[link].protocol.data_received(data)
            net.on_tx = tx
            cl = Client(*(srv.getsockname()), tx_message_wait=0.01, tx_jitter=0)
            e = {"k": "client", "out": "ok", "held": []}
            try:
                await cl.connect()
                await cl.detect()
                await cl.load_config()
                await cl.refresh()
            except CommunicationError:      # some banks are not seeded
                pass
            except Exception as x:  # noqa: BLE001
                e["out"] = f"{x!r}"[:150]
            e["held"] = devs({d: c for d, c in cl.plant.register_caches.items() if c})
            t.ev.append(e)
            await cl.close()
            await mock.aclose()
            return {"ev": t.ev}
    return vt.run(main)


def run(chk):
    n = 60 if chk.quick else 1500

    def real():
        rng = random.Random(f"mock-{chk.seed}")
        traces = [serve(rng) for _ in range(2 * n)]
        chk.leg("conversations", traces=len(traces), requests=sum(e["k"] == "chunk" for t in traces for e in t["ev"]))
        with tempfile.TemporaryDirectory() as tmp:
            traces += [{"ev": [captured(rng, tmp) for _ in range(2)]} for _ in range(2 * n)]
        traces += [{"ev": [written(rng) for _ in range(3)] + [sentinel(rng) for _ in range(2)]} for _ in range(n)]
        traces += [{"ev": [identified(rng) for _ in range(40)]} for _ in range(n // 2)]
        live = [client(rng) for _ in range(n // 3)]
        chk.leg("clients", traces=len(live), outcomes=sorted({t["ev"][-1]["out"] for t in live}))
        traces += live
        chk.sample({"requests": traces[0]["ev"][1]["data"][:28]})
        report(chk, traces, chk.validate("TraceMock", "SPECIFICATION Spec\n", traces, shards=6 if chk.quick else 8, timeout=3000))

    chk.parallel(lambda: chk.model_check("MC_Mock", f"INIT Init\nNEXT Next\nINVARIANT Ok\nCONSTANT Deep = {'FALSE' if chk.quick else 'TRUE'}\n", workers=4, timeout=1500), real)
