"""Redacted caches and plants, and live captures, validated against Redact.tla."""
import asyncio
import copy
import json
import random
import re
import struct

import core
import vt
import wire
import detect
import devices
import wirechk
from bank import words
from poll import report
from session import READ

from givenergy_modbus.client.client import Client
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import HR, IR, MR
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.pdu import ReadRegistersResponse
from givenergy_modbus.pdu.write_registers import WriteHoldingRegisterRequest

CLS = {"HR": HR, "IR": IR, "MR": MR}
GROUPS = {"HR": [8, 13], "IR": [110, 114, 138, 1627, 1841, 1846, 1848, 1851, 1855, 2066, 2071, 2076, 2081] + [114 + 120 * i for i in range(1, 8)], "MR": [60]}
codes = lambda s: [ord(c) for c in s] if s else []  # noqa: E731


# ---- texts that do and do not look like a serial ------------------------------------------------
def L(rng):
    return rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ")


def D(rng, n=1):
    return "".join(rng.choice("0123456789") for _ in range(n))


def form(rng, f=None):
    f = f or rng.choice(["std", "std", "ems", "swp"])
    if f == "std":
        return L(rng) + L(rng) + D(rng, 4) + L(rng) + D(rng, 3)
    if f == "ems":
        return L(rng) + L(rng) + L(rng) + D(rng, 7)
    return L(rng) + L(rng) + D(rng, 5) + L(rng) + D(rng, 2)


def text(rng):
    """Ten latin-1 bytes, mostly serials, sometimes nearly."""
    s = form(rng)
    x = rng.random()
    if x < 0.55:
        return s.encode()
    if x < 0.63:
        return (s[:7] + "000").encode()
    if x < 0.70:
        return s.lower().encode() if rng.random() < 0.5 else "".join(rng.choice([c, c.lower()]) for c in s).encode()
    if x < 0.76:
        i = rng.randrange(10)
        return (s[:i] + rng.choice("-* z5A") + s[i + 1:]).encode()
    if x < 0.82:                            # nine or eight of the characters, the rest NUL (they do not count)
        b = bytearray(s.encode())
        b[rng.randrange(10)] = 0
        return bytes(b)
    if x < 0.86:                            # ß upper-cases to two letters
        k = rng.choice([b"\xdf2231G567\0", b"A\xdf231G5671", b"\xdf\0" + s[2:].encode(), b"A\xdf\0" + D(rng, 7).encode()])
        return k[:10].ljust(10, b"\0")
    if x < 0.90:
        return bytes(rng.choice([0xE4, 0xB5, 0xFF, 0xC4, 65, 97, 48]) for _ in range(2)) + s[2:].encode()
    if x < 0.94:
        return bytes(10) if rng.random() < 0.5 else b"\0" * 4 + b"SA2231"
    return bytes(rng.randrange(256) for _ in range(10))


def w5(b):
    return list(struct.unpack(">5H", b))


def split(cache):
    out = {k: {} for k in CLS}
    for r, v in cache.items():
        out[type(r).__name__][int(r._idx)] = v
    return out


def seqs(d):
    ix = sorted(d)
    return ix, [-1 if d[i] is None else int(d[i]) for i in ix]


def cache_events(before, after, twice, orig):
    ev = []
    b, a, t, o = split(before), split(after), split(twice), split(orig)
    for k in CLS:
        if not (b[k] or a[k] or o[k]):
            continue
        ix, vs = seqs(b[k])
        rix, rvs = seqs(a[k])
        ev.append({"k": "cache", "bank": k, "ix": ix, "vs": vs, "rix": rix, "rvs": rvs, "vs2": seqs(t[k])[1], "ovs": seqs(o[k])[1]})
    return ev


def rand_cache(rng):
    c = RegisterCache()
    for k in rng.sample(["HR", "IR", "IR", "MR"], rng.randint(1, 4)):
        for _ in range(rng.randint(0, 6)):              # noise
            c[CLS[k](rng.choice([0, 12, 18, 59, 62, 109, 115, 119, 143, 1840, 1845, 2065, 2086, 5, 7000]) + rng.randrange(3))] = rng.randrange(65536)
        for g in rng.sample(GROUPS[k], rng.randint(0, min(6, len(GROUPS[k])))):
            if k == "MR":
                for r in rng.choice([[60, 61], [60], [61], [59, 60, 61, 62]]):
                    c[MR(r)] = rng.choice([0, 0x5341, rng.randrange(65536)])
            else:
                for i, w in enumerate(w5(text(rng))):
                    c[CLS[k](g + i)] = w
                if rng.random() < 0.12:
                    r = CLS[k](g + rng.randrange(5))
                    if rng.random() < 0.5:
                        c.pop(r, None)
                    else:
                        c[r] = None
        if rng.random() < 0.15:                          # a serial somewhere that is no serial location
            g = rng.choice([0, 20, 100, 112, 130, 145, 300, 1830, 2061, 2087])
            for i, w in enumerate(w5(text(rng))):
                c[CLS[k](g + i)] = w
    return c


def snap(c):
    return RegisterCache(dict(c))


def cache_trace(rng, n=8):
    ev = []
    for _ in range(n):
        c = rand_cache(rng)
        was = snap(c)
        r = c.redact_serials()
        t = r.redact_serials()
        e = cache_events(was, r, t, c)
        for k in list(r):                                # the copy is the caller's
            r[k] = 7
        ev += e + [same("R01", "a change to the redacted cache reached the original", dict(c) == dict(was))]
    return {"ev": ev}


def same(pid, what, ok):
    return {"k": "same", "p": pid, "what": what, "ok": bool(ok)}


# ---- plants ------------------------------------------------------------------------------------
def shows(plant):
    """Every word of ten characters the plant shows anywhere."""
    texts = [str(plant.model_dump()), repr(plant)]
    for f in (lambda: [vars(r) if hasattr(r, "__dict__") else r for r in plant.devices], lambda: plant.inverter_serial,
              lambda: [(x.serial_number, x.first_battery_serial_number if hasattr(x, "first_battery_serial_number") else "") for x in plant.inverters],
              lambda: [(r.identity, r.serial_number, r.parent) for r in plant.devices]):
        try:
            texts.append(str(f()))
        except Exception:  # noqa: BLE001 (the tree's own correctness is M05's)
            pass
    out = set()
    for t in texts:
        out |= {m.group(0).upper() for m in re.finditer(r"[A-Za-z0-9]+", t) if len(m.group(0)) == 10}
    return sorted(out)


PLAIN = ("capabilities", "register_block_updated_at", "register_block_present")
COUNTS = ("crc_failure_count", "splice_reject_count", "splice_held_count", "retry_count", "cold_start_held_count")


def frozen(p):
    out = {}
    for f in PLAIN + COUNTS:
        if hasattr(p, f):
            v = getattr(p, f)
            out[f] = json.dumps(v.to_dict(), sort_keys=True) if hasattr(v, "to_dict") else repr(sorted(v.items(), key=repr)) if isinstance(v, dict) else repr(v)
    return out


def header(rng):
    x = rng.random()
    return "" if x < 0.15 else form(rng) if x < 0.6 else text(rng).decode("latin1") if x < 0.85 else rng.choice(["SA2231G000", "serial_num", "AB1234G567", "x" * 12, "EMS2231000", "CH22310G00"])


def plant_events(p, direct):
    ev = []
    before, heads = {d: snap(c) for d, c in p.register_caches.items()}, (p.inverter_serial_number, p.data_adapter_serial_number)
    was = frozen(p)
    r = p.redact()
    t = r.redact()
    ev.append(same("R01", "redact() returned the plant itself", r is not p and isinstance(r, Plant)))
    ev.append(same("R01", "devices of the redacted plant", list(r.register_caches) == list(before) == list(p.register_caches)))
    for d in before:
        if d in r.register_caches and d in t.register_caches:
            ev += cache_events(before[d], r.register_caches[d], t.register_caches[d], p.register_caches[d])
    for b, a, a2, o in zip(heads, (r.inverter_serial_number, r.data_adapter_serial_number), (t.inverter_serial_number, t.data_adapter_serial_number),
                           (p.inverter_serial_number, p.data_adapter_serial_number)):
        ev.append({"k": "hdr", "before": codes(b), "after": codes(a), "twice": codes(a2)})
        ev.append(same("R01", "a header field of the original", b == o))
    ev.append(same("R01", "the original's other fields", frozen(p) == was))
    ev.append(same("R01", "the copy's other fields", frozen(r) == was))
    for s in shows(r):
        ev.append({"k": "shown", "b": codes(s)})
    # the copy is independent
    for c in r.register_caches.values():
        for k in list(c):
            c[k] = 7
    ev.append(same("R01", "a change to the redacted plant reached the original's registers", all(dict(p.register_caches[d]) == dict(before[d]) for d in before)))
    return ev, r, was


def stir(p, rng):
    """Later traffic to one of the two plants."""
    d = rng.choice(list(p.register_caches) or [0x11])
    m = ReadRegistersResponse  # noqa: F841 (documentation: any read response)
    from givenergy_modbus.pdu import ReadHoldingRegistersResponse, ReadInputRegistersResponse
    for bad in (False, True):
        for cls in (ReadHoldingRegistersResponse, ReadInputRegistersResponse):
            base = rng.choice([0, 60, 120])
            x = cls(base_register=base, register_count=60, register_values=[rng.randrange(3000) for _ in range(60)], device_address=d,
                    data_adapter_serial_number="WF1234G567", inverter_serial_number="SA1234G567")
            x.crc_failed = bad
            p.update(x)
    getattr(p, "_bump")(p.retry_count, d)


def plant_trace(rng):
    p = None
    if rng.random() < 0.5:
        devs = [0x11] + rng.sample([1, 2, 0x31, 0x32, 0x33, 0x50, 0x51, 0x70, 0x90, 0xA0], rng.randint(0, 4))
        p = Plant(inverter_serial_number=header(rng), data_adapter_serial_number=header(rng))
        p.register_caches = {d: rand_cache(rng) for d in devs}
        if rng.random() < 0.6:
            p.capabilities = devices.build(devices.rand_caps(rng))
    else:
        names = devices.Names(rng)
        c = devices.rand_caps(rng)
        p = Plant(inverter_serial_number=header(rng), data_adapter_serial_number=header(rng))
        p.capabilities = devices.build(c)
        pool = [17, 17, 49] + c["packs"] + c["meters"] + c["aio"] + [112 + i for i, _ in c["stacks"]] + [50]
        for d in dict.fromkeys(pool):
            devices.say(p, rng, names, c, d)
    if rng.random() < 0.4:
        stir(p, rng)
    direct = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        c = rand_cache(rng)
        for i, w in enumerate(w5(form(rng).encode())):
            c[HR(13 + i)] = w
        c[HR(0)] = rng.choice([0x2001, 0x3001, 0x8001])
        p.add_direct_source({rng.choice([17, 49]): c})
        direct.append((c, snap(c)))
    ev, r, was = plant_events(p, direct)
    ev.append(same("R01", "the original's direct sources", all(dict(a) == dict(b) for a, b in direct)))
    now = frozen(p)
    stir(r, rng)
    ev.append(same("R01", "later data for the redacted plant changed the original", frozen(p) == now))
    keep = {d: dict(c) for d, c in r.register_caches.items()}, frozen(r)
    stir(p, rng)
    ev.append(same("R01", "later data for the original changed the redacted plant", ({d: dict(c) for d, c in r.register_caches.items()}, frozen(r)) == keep))
    return {"ev": ev}


# ---- frames full of serials ----------------------------------------------------------------------
WINDOWS = [(3, 0, 60), (3, 0, 18), (3, 8, 10), (3, 13, 5), (3, 14, 20), (3, 9, 8), (4, 60, 60), (4, 110, 5), (4, 110, 9), (4, 112, 30), (4, 114, 5), (4, 120, 60), (4, 138, 5), (4, 139, 9),
           (4, 180, 60), (4, 300, 60), (4, 840, 60), (4, 950, 20), (4, 1600, 60), (4, 1620, 12), (4, 1840, 60), (4, 1846, 8), (4, 1848, 8), (4, 1841, 19), (4, 1852, 6), (4, 2040, 46), (4, 2066, 20),
           (4, 2068, 10), (0x16, 60, 2), (0x16, 58, 6), (0x16, 61, 1), (0x16, 60, 30), (0x16, 0, 60), (4, 0, 60), (3, 60, 60)]


def adapter(rng):
    return text(rng) if rng.random() < 0.7 else rng.choice([b"*" * 10, b"AB1234G567", b"WF1234G000", bytes(10)])


def answer(rng, fc, dev, base, n, **kw):
    raw = bytearray(rng.randrange(256) if rng.random() < 0.3 else 0 for _ in range(2 * n))
    kind = {3: "HR", 4: "IR"}.get(fc, "MR")
    for g in GROUPS[kind]:
        if base - 5 < g < base + n and rng.random() < 0.7:
            t = text(rng)
            for i in range(10 if kind != "MR" else 4):
                at = 2 * (g - base) + i
                if 0 <= at < 2 * n:
                    raw[at] = t[i]
    return wire.read_response(dev, fc, base, list(struct.unpack(f">{n}H", bytes(raw))), adapter(rng), adapter(rng), **kw)


def frame(rng):
    x = rng.random()
    dev = rng.choice([0x11, 0x31, 0x32, 0x50, 0x70, 1])
    if x < 0.55:
        fc, base, n = rng.choice(WINDOWS)
        if rng.random() < 0.2:
            n = max(1, n - rng.randrange(1, 6))
        f = answer(rng, fc, dev, base, n, **({"bad_crc": 0x101} if rng.random() < 0.1 else {}))
        if rng.random() < 0.08:
            f = bytearray(f)
            f[6] = 0                                      # the other unit id
        return bytes(f)
    if x < 0.62:
        return wire.heartbeat(adapter(rng), rng.randrange(256))
    if x < 0.70:
        return wire.error_response(dev, rng.choice([3, 4, 0x16]), rng.choice([0, 13, 60, 110]), rng.choice([5, 30, 60]), adapter(rng), adapter(rng))
    if x < 0.76:
        return wire.write_response(dev, rng.randrange(300), rng.randrange(65536), adapter(rng), adapter(rng), error=rng.random() < 0.3)
    if x < 0.82:
        return wire.null_response(0x11, adapter(rng), adapter(rng))
    if x < 0.9:
        sep = rng.choice([b",", b",", b", "])
        ip = lambda: b".".join(b"%d" % rng.choice([0, 1, 10, 192, 255]) for _ in range(4))  # noqa: E731
        csv = b"," + sep.join([ip(), ip(), ip()]) + rng.choice([b"\r\n\r\n", b"\r\n", b""])
        return wire.mbap(2, wire.ser(adapter(rng)) + b"\0" * 7 + csv + struct.pack(">H", rng.randrange(65536)))
    f = bytearray(answer(rng, 4, dev, 60, 60))                                          # more bytes than the message needs
    f += bytes(rng.choice([rng.randrange(1, 6), 305 - len(f), 306 - len(f), 307 - len(f)]))
    f[4:6] = struct.pack(">H", len(f) - 6)
    return bytes(f)


def chunk(rng):
    """Something that arrives: frames, or rubbish."""
    out = b""
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        out += frame(rng) if x < 0.72 else wirechk.good_frame(rng, "c") if x < 0.8 else wirechk.debris(rng, "c")
    return out


# ---- live captures -------------------------------------------------------------------------------
class Tap:
    """A client with captures on it."""

    def __init__(self, net, rng, capture):
        self.net, self.rng, self.capture = net, rng, capture
        self.c = Client("h", 8899, tx_message_wait=0.25, tx_jitter=0)
        self.ev, self.sinks, self.stream, self.rest, self.outs, self.tasks = [], [], [b""], b"", [], []
        self.cur = None
        net.on_tx = self._tx

    async def settle(self):
        for _ in range(12):
            await asyncio.sleep(0)

    def _tx(self, link, data):
        self.ev.append({"k": "tx", "b": list(data)})
        for r in wire.parse_tx(data):
            if r["k"] not in READ and r["k"] != "w":
                continue
            asyncio.get_running_loop().call_later(self.lat(r), self._reply, link, r)

    def lat(self, r):
        return 0.0131 + (r["a"] * 37 + r["b"] * 11 + len(self.outs) * 7) % 190 / 1000

    def _reply(self, link, r):
        if not link.open or link.ended or link is not self.net.link:
            return
        rng = random.Random(r["a"] * 1009 + r["b"] + r["dev"])
        if self.rest:
            return                                        # a broken-off frame is in the way; let it time out
        if r["k"] == "w":
            self.rx(wire.write_response(r["dev"], r["a"], r["b"], adapter(rng), adapter(rng)))
        else:
            self.rx(answer(rng, READ[r["k"]][1], r["dev"], r["a"], r["b"]))

    def rx(self, data):
        if not data or not self.net.link.rx(data):
            return
        self.stream[-1] += data
        self.ev.append({"k": "rx", "b": list(data)})

    async def deliver(self, data):
        for b in wirechk.chop(self.rng, data):
            for i in range(0, len(b), 300):
                self.rx(b[i:i + 300])
                await self.settle()

    # ---- what happens
    async def start(self, n, good=True, second=False):
        if not self.capture:
            await self.settle()
            return
        got = {"rx": b"", "tx": b"", "calls": 0}

        def sink(d, b):
            got["calls"] += 1
            if not good and got["calls"] % 3 != n % 3:
                got[d] += b
                raise [ValueError("sink"), OSError("disk full"), KeyError("x"), asyncio.TimeoutError()][n % 4]
            got[d] += bytes(b)
        task = asyncio.create_task(self.c.capture_frames(sink, duration=n % 9 + 0.0137 + n / 1e5))
        rec = {"task": task, "got": got}
        if self.cur is None:
            self.cur = rec
            self.ev.append({"k": "start", "ok": True})
            me = self.ev[-1]

            def ended(t):
                me["ok"] = t.cancelled() or t.exception() is None
                e = {"k": "stop", "sink": True, "rx": got, "tx": []}
                self.ev.append(e)
                self.sinks.append((e, got))
                self.cur = None
            task.add_done_callback(ended)
            await self.settle()
        else:
            await self.settle()
            ok = not (task.done() and isinstance(task.exception(), RuntimeError))
            if ok:
                task.cancel()
            self.ev.append({"k": "start", "ok": ok})
            self.extra = getattr(self, "extra", []) + [got]

    async def act(self, a, n):
        rng = self.rng = random.Random(n)
        up = bool(self.c.connected)
        if a in ("start", "start2", "startbad", "again"):
            await self.start(n, good=a != "startbad")
            if a == "start2":
                await self.start(n + 1)
        elif a in ("stop", "cancel"):
            if self.cur and a == "cancel":
                self.cur["task"].cancel()
            await self.settle()
            if a == "stop":
                await asyncio.sleep(n % 9 + 0.0211 + n / 1e5)
        elif a == "req" and up:
            await self.request(n)
        elif a in ("push", "hb", "part", "half") and up:
            data = self.rest
            self.rest = b""
            if a == "push":
                data += chunk(rng)
            elif a == "hb":
                data += wire.heartbeat(adapter(rng), n % 256)
            else:
                f = frame(rng)
                if a == "part":
                    cut = rng.randrange(1, len(f))
                    self.rest = f[cut:]
                    f = f[:cut]
                data += f
            await self.deliver(data)
        elif a == "drop" and up:
            await self.finish_frame()
            self.net.link.eof()
        elif a == "reset" and up:
            self.net.link.reset()
            self.rest = b""
        elif a in ("connect", "reconnect"):
            self.rest = b""
            self.ev.append({"k": "up"})
            self.stream.append(b"")
            try:
                await self.c.connect()
            except Exception as e:  # noqa: BLE001
                self.outs.append([f"connect {e!r}"])
        await self.settle()
        if not self.c.connected:
            self.rest = b""

    async def finish_frame(self):
        if self.rest and self.rng.random() < 0.5:
            await self.deliver(self.rest)
        self.rest = b""

    async def request(self, n):
        k = ["rh", "ri", "ri", "rm", "w"][n % 5]
        dev = [0x11, 0x32, 0x50, 1][n % 4]
        if k == "w":
            req = WriteHoldingRegisterRequest(register=[20, 27, 35, 94][n % 4], value=n % 100, device_address=0x11, **({"data_adapter_serial_number": "WF22%02dG%03d" % (n % 100, n)} if n % 3 == 0 else {}))
        else:
            kw = {"data_adapter_serial_number": "WF22%02dG%03d" % (n % 100, n)} if n % 3 == 0 else {}
            req = READ[k][0](base_register=[0, 60, 120, 1840][n // 5 % 4], register_count=60 if k != "rm" else 30, device_address=dev, **kw)
        out = []
        self.outs.append(out)

        async def go():
            try:
                r = await self.c.send_request_and_await_response(req, timeout=1.0, retries=n % 2, retry_delay=0.3)
                out.append(str(r) + str(list(getattr(r, "register_values", []))))
            except asyncio.CancelledError:
                out.append("cancelled")
            except Exception as e:  # noqa: BLE001
                out.append(type(e).__name__)
            out.append(round(vt.CLOCK.now, 6))
        self.tasks.append(asyncio.create_task(go()))

    def result(self):
        p = self.c.plant
        return [*[json.dumps(o) for o in self.outs], json.dumps(bool(self.c.connected)), json.dumps(sorted((d, repr(r), v) for d, c in p.register_caches.items() for r, v in c.items()), default=str),
                json.dumps(sorted(p.retry_count.items())), json.dumps([len(x) for x in self.stream])]


async def tap(acts, seed, capture):
    with vt.Net() as net:
        t = Tap(net, random.Random(seed), capture)
        pause = random.Random(seed)
        await t.c.connect()
        await t.settle()
        for a in acts:
            await t.act(a["k"], a["n"])
            await asyncio.sleep(pause.choice([0, 0.0713, 0.2917, 1.1113]) + pause.randrange(997) * 1e-6)
        # the network keeps talking after the last capture is over
        if t.cur:
            t.cur["task"].cancel()
        await t.settle()
        if t.c.connected:
            await t.act("hb", 77)
            await t.act("req", 12)
        await asyncio.sleep(12)
        for e, got in t.sinks:                       # whatever a sink was ever given
            e["rx"], e["tx"] = list(got["rx"]), list(got["tx"])
        for got in getattr(t, "extra", []):
            t.ev.append(same("R02", "a refused capture's sink was called", not got["calls"]))
        res = t.result()
        await t.c.close()
        for x in t.tasks:
            x.cancel()
        return t.ev, res, t.stream


def live(acts, seed):
    random.seed(seed)
    ev, res, streams = vt.run(lambda: tap(acts, seed, True))
    random.seed(seed)
    _, plain, _ = vt.run(lambda: tap(acts, seed, False))
    ev += [{"k": "req", "got": a, "want": b} for a, b in zip(res + [""], plain + [""])] + [same("R02", "number of outcomes", len(res) == len(plain))]
    return None if any(wirechk.near(s) for s in streams) else {"ev": ev}


async def feed(rng):
    """One capture over a stream cut in every way, whole."""
    with vt.Net() as net:
        t = Tap(net, rng, True)
        await t.c.connect()
        await t.settle()
        if rng.random() < 0.3:
            await t.deliver(chunk(rng)[: rng.randrange(1, 60)])
        await t.start(5000)
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.25:                  # a frame behind rubbish, cut inside its header
                junk, f, cut = bytes(rng.choice([0, 1, 0x59, 0x58]) for _ in range(rng.choice([0, 14, 15, 17, 18, 30, 60]))), frame(rng), rng.randrange(1, 19)
                t.rx(junk + f[:cut])
                await t.settle()
                t.rx(f[cut:])
                await t.settle()
            else:
                await t.deliver(chunk(rng))
            if not t.c.connected:
                break
        t.cur["task"].cancel()
        await t.settle()
        await t.c.close()
        for e, got in t.sinks:
            e["rx"], e["tx"] = list(got["rx"]), list(got["tx"])
        return {"ev": t.ev}, t.stream


MC = "CONSTANTS Chunks = {}\n Deep = {}\nSPECIFICATION Spec\nINVARIANTS Conserved Independent Anonymous Whole\n"


def run(chk):
    rng = random.Random(chk.seed * 99991 + {"R01": 1, "R02": 2}[chk.pid])
    q = chk.quick
    if chk.pid == "R01":
        traces = [cache_trace(rng) for _ in range(150 if q else 4000)] + [plant_trace(rng) for _ in range(250 if q else 5000)]
        mc = MC.format("{60}", "FALSE")
    else:
        beh = chk.generate("GenCapture", "SPECIFICATION GSpec\nCONSTANT Steps = 22\n", leg="gen:lives", simulate=f"num={160 if q else 3000}",
                           extra=["-depth", "30", "-seed", str(chk.seed)], workers=1, timeout=3000)
        traces = [t for n, b in enumerate(beh) if (t := live(b, chk.seed * 1000 + n))]
        lives = len(traces)
        for _ in range(260 if q else 6000):
            t, s = vt.run(lambda: feed(random.Random(rng.randrange(1 << 30))))
            if not any(wirechk.near(x) for x in s):
                traces.append(t)
        chk.leg("driver", lives=lives, streams=len(traces) - lives)
        mc = MC.format("{7, 19, 60}" if q else "{1, 2, 7, 19, 60}", "FALSE" if q else "TRUE")
    chk.leg("driver", events=sum(len(t["ev"]) for t in traces))
    jobs = [lambda: chk.validate("TraceRedact", "SPECIFICATION Spec\n", traces, shards=8, timeout=6000),
            lambda: chk.model_check("MC_Redact", mc, leg="mc:streams", workers=4, timeout=6000)]
    rej = chk.parallel(*jobs)[0]
    chk.sample(traces[0]["ev"][:2])
    chk.assumptions += ["a marker 15 to 17 bytes behind another one is recognised or not depending on buffering (excluded, as in F01)"]
    report(chk, traces, rej)
