"""Framing and byte layout: the real framers and message classes against Stream/Wire.tla."""
import random
import struct

import core
import vt  # noqa: F401
import wire

from givenergy_modbus import pdu as P
from givenergy_modbus.framer import ClientFramer, ServerFramer
from givenergy_modbus.pdu.lan_config import LanConfigBroadcast
from givenergy_modbus.pdu.read_registers import ReadMeterProductRegistersRequest, ReadMeterProductRegistersResponse
from givenergy_modbus.pdu.write_registers import WriteHoldingRegisterRequest, WriteHoldingRegisterResponse

B = lambda s: list(s.encode("latin1"))  # noqa: E731
KINDS = {
    P.HeartbeatRequest: "hb", P.HeartbeatResponse: "hbr", P.NullResponse: "null", LanConfigBroadcast: "lan",
    P.ReadHoldingRegistersResponse: "HR", P.ReadInputRegistersResponse: "IR", ReadMeterProductRegistersResponse: "MR",
    WriteHoldingRegisterResponse: "W", P.ReadHoldingRegistersRequest: "qHR", P.ReadInputRegistersRequest: "qIR",
    ReadMeterProductRegistersRequest: "qMR", WriteHoldingRegisterRequest: "qW",
}
CLASS = {v: k for k, v in KINDS.items()}
READS, QUERIES = ("HR", "IR", "MR"), ("qHR", "qIR", "qMR")
BLANK = {"k": "err", "ser": [], "pad": [], "dev": 0, "err": False, "inv": [], "a": 0, "b": 0, "vals": [], "chk": 0, "bad": False, "csv": []}


def rec(m):
    """A delivered message as a Wire.tla record, from its public attributes."""
    if isinstance(m, Exception):
        return dict(BLANK)
    k = KINDS.get(type(m), "?" + type(m).__name__)
    r = dict(BLANK, k=k, ser=B(m.data_adapter_serial_number))
    if k in ("hb", "hbr"):
        r["a"] = m.data_adapter_type
        return r
    if k == "lan":
        return dict(r, chk=m.check, csv=[B(m.ip), B(m.netmask), B(m.gateway)])
    r.update(pad=list(struct.pack(">Q", m.padding)), dev=m.device_address, err=bool(m.error), chk=m.check)
    if k in READS + ("W", "null"):
        r["inv"] = B(m.inverter_serial_number)
    if k == "null":
        r["vals"] = list(m.nulls)
    elif k in ("W", "qW"):
        r.update(a=m.register, b=m.value)
    else:
        r.update(a=m.base_register, b=m.register_count)
        if k in READS:
            r.update(vals=list(m.register_values), bad=bool(m.crc_failed))
    return r


def feed_trace(side, feeds):
    f = (ClientFramer if side == "c" else ServerFramer)()
    tr = {"side": side, "ev": []}
    for b in feeds:
        e = {"k": "feed", "b": list(b), "out": [], "exc": ""}
        try:
            e["out"] = [rec(m) for m in wire.drive(wire.decode_all(f, bytes(b)))]
        except Exception as ex:  # noqa: BLE001
            e["exc"] = repr(ex)
        tr["ev"].append(e)
    return tr


# ---- encoding -----------------------------------------------------------------
def build(m, ty, inst):
    """Construct the message the way a caller would; ``ty`` spoils the varying argument."""
    kw = {"data_adapter_serial_number": bytes(m["ser"]).decode("latin1")}
    k = m["k"]
    spoil = {"int": lambda v: v, "bool": bool, "float": lambda v: v + 0.5, "str": str, "none": lambda v: None}[ty]
    if k in ("hb", "hbr"):
        return CLASS[k](data_adapter_type=m["a"], **kw)
    kw.update(padding=int.from_bytes(bytes(m["pad"]), "big"), device_address=m["dev"])
    if m["err"]:
        kw["error"] = True
    if k in READS + ("W", "null"):
        kw["inverter_serial_number"] = bytes(m["inv"]).decode("latin1")
    if k == "null":
        return CLASS[k](nulls=list(m["vals"]), **kw)
    if k in ("W", "qW"):
        if inst:
            kw["installer"] = True
        return CLASS[k](m["a"], spoil(m["b"]), **kw)
    if k in READS:
        kw["register_values"] = list(m["vals"])
    return CLASS[k](base_register=m["a"], register_count=spoil(m["b"]), **kw)


def reused(first, m, ty, inst):
    """A message that was already encoded (or received) as ``first``, now given the fields of ``m``."""
    new = build(m, ty, inst)
    try:
        q = build(first, "int", False)
        raw = q.encode()
        if first["a"] & 1:
            q = next(iter(wire.decode_one(ServerFramer if m["k"][0] == "q" or m["k"] == "hbr" else ClientFramer, raw)))
            if type(q) is not type(new):
                return new
    except Exception:  # noqa: BLE001
        return new
    if not inst:
        vars(q).pop("installer", None)
    for k, v in vars(new).items():
        if k not in ("raw_frame", "_builder", "check", "crc_failed"):
            setattr(q, k, v)
    return q


def enc_event(m, ty="int", inst=False, first=None):
    e = {"k": "enc", "m": m, "ty": ty, "inst": inst, "refused": False, "bytes": [], "b": [], "exc": ""}
    try:
        q = reused(first, m, ty, inst) if first else build(m, ty, inst)
        e["bytes"] = list(q.encode())
        if list(q.encode()) != e["bytes"]:
            e["exc"] = "encoding again gives other bytes"
            e["bytes"] = list(q.encode())
    except Exception as ex:  # noqa: BLE001
        e["refused"], e["exc"] = True, repr(ex)[:200]
    return e


def rser(rng):
    return B("".join(rng.choice("ABCDEFGHJKLMNPQRSTUVWXYZ0123456789") for _ in range(rng.choice([10, 10, 10, 10, 7, 13, 1, 0]))))


def rmsg(rng, k):
    m = dict(BLANK, k=k, ser=rser(rng))
    if rng.random() < 0.1:
        m["ser"] = [rng.randrange(256) for _ in range(10)]
    if k in ("hb", "hbr"):
        m["a"] = rng.randrange(256)
        return m
    m["pad"] = [rng.randrange(256) for _ in range(8)] if rng.random() < 0.15 else [0] * 7 + [rng.choice([8, 0x8A, 0x12, 0])]
    m["dev"] = rng.choice([0, 1, 0x11, 0x31, 0x32, 0x50, 0x70, 0xA0, 255, rng.randrange(256)])
    if k in READS + ("W",):
        m["err"] = rng.random() < 0.2
        m["inv"] = [rng.randrange(256) for _ in range(10)] if rng.random() < 0.1 else rser(rng)
    edge = lambda: rng.choice([0, 1, 59, 60, 255, 256, 32767, 32768, 65535, rng.randrange(65536)])  # noqa: E731
    if k == "null":
        m["inv"], m["vals"] = [0] * 10, [0] * 62 if rng.random() < 0.7 else [rng.randrange(65536) for _ in range(62)]
    elif k == "W":
        m["a"], m["b"] = edge(), edge()
    elif k == "qW":
        m["a"] = rng.randrange(0, 400) if rng.random() < 0.6 else rng.choice([edge(), rng.randrange(1000, 2100), rng.randrange(5000, 5020), rng.randrange(20000, 20060)])
        m["b"] = edge() if rng.random() < 0.8 else rng.choice([-1, 65536, 70000, -65536, 1 << 30])
    elif k in READS:
        n = 0 if m["err"] else rng.choice([0, 1, 2, 3, 36, 59, 60, 60])
        m["a"], m["b"] = edge(), n if not m["err"] else rng.randrange(0, 61)
        m["vals"] = [edge() for _ in range(n)]
        if rng.random() < 0.08 and not m["err"]:
            m["b"] = n + rng.choice([-1, 1]) if n else 1
        if rng.random() < 0.05:
            m["a"] = rng.choice([-1, 65536])
    else:
        m["a"] = edge() if rng.random() < 0.85 else rng.choice([-1, 65536, 1 << 20])
        m["b"] = rng.choice([0, 1, 2, 59, 60, 61, 62, 100, 255, 256, 65535, -1, rng.randrange(1, 61), rng.randrange(1, 61)])
    return m


def enc_traces(rng, n):
    """Random messages, plus the write tier of every single register."""
    evs = []
    for _ in range(n):
        k = rng.choice(["hb", "hbr", "HR", "IR", "MR", "W", "null", "qHR", "qIR", "qMR", "qW", "qW"])
        ty = rng.choice(["bool", "float", "str", "none"]) if k in QUERIES[:3] + ("qW",) and rng.random() < 0.15 else "int"
        if k in QUERIES and ty in ("bool", "str", "none"):
            ty = "float"
        evs.append(enc_event(rmsg(rng, k), ty, k == "qW" and rng.random() < 0.4, rmsg(rng, k) if rng.random() < 0.4 else None))
    regs = list(range(0, 601)) + list(range(990, 1180)) + list(range(2030, 2080)) + list(range(3998, 4006)) + list(range(4995, 5020)) \
        + list(range(19995, 20060)) + [65535]
    for inst in (False, True):
        for r in regs:
            evs.append(enc_event(dict(BLANK, k="qW", ser=B("AB1234G567"), pad=[0] * 7 + [8], dev=0x11, a=r, b=1), "int", inst))
    for k in QUERIES:
        for c in list(range(-2, 64)) + [120, 255, 65535, 65536]:
            evs.append(enc_event(dict(BLANK, k=k, ser=B("AB1234G567"), pad=[0] * 7 + [8], dev=0x32, a=60, b=c)))
    for v in (-1, 0, 1, 65535, 65536):
        for ty in ("int", "bool", "float", "str", "none"):
            evs.append(enc_event(dict(BLANK, k="qW", ser=B("AB1234G567"), pad=[0] * 7 + [8], dev=0x11, a=20, b=v), ty))
    return [{"side": "e", "ev": evs[i:i + 60]} for i in range(0, len(evs), 60)]


def defaults():
    """Messages built with the library's own defaults, and the templates requests derive."""
    evs = []

    def ev(m, want):
        e = {"k": "enc", "m": want, "ty": "int", "inst": False, "refused": False, "bytes": [], "b": [], "exc": ""}
        try:
            e["bytes"] = list(m().encode())
        except Exception as ex:  # noqa: BLE001
            e["refused"], e["exc"] = True, repr(ex)[:200]
        evs.append(e)
    base = dict(BLANK, ser=B("AB1234G567"), pad=[0] * 7 + [8])
    for k in QUERIES:
        ev(lambda k=k: CLASS[k](base_register=7, register_count=3), dict(base, k=k, dev=0x32, a=7, b=3))
    ev(lambda: CLASS["qW"](20, 1), dict(base, k="qW", dev=0x11, a=20, b=1))
    ev(lambda: CLASS["qW"](register=63, value=9, installer=True), dict(base, k="qW", dev=0x11, a=63, b=9))
    evs[-1]["inst"] = True
    ev(lambda: P.HeartbeatResponse(data_adapter_type=5), dict(BLANK, k="hbr", ser=B("AB1234G567"), a=5))
    ev(lambda: P.HeartbeatRequest(data_adapter_type=9).expected_response(), dict(BLANK, k="hbr", ser=B("AB1234G567"), a=9))
    return {"side": "e", "ev": evs}


# ---- streams ------------------------------------------------------------------
def chop(rng, s):
    style = rng.randrange(6)
    out, i = [], 0
    while i < len(s):
        n = [len(s), rng.randrange(1, 301), rng.randrange(1, 30), rng.choice([1, 1, 2, 3, 17, 18, 19, 26, 44]),
             rng.choice([300, 1024, 4]), rng.choice([8, 18, 19, 44, 164])][style]
        out.append(s[i:i + n])
        i += n
    return out


def good_frame(rng, side):
    """A well-formed frame as it would appear on the wire, from independent builders."""
    if side == "s":
        x = rng.randrange(5)
        ad = bytes(rng.choice(b"ABCDEFGHJ0123456789") for _ in range(10))
        if x == 0:
            return wire.mbap(1, ad + bytes([rng.randrange(256)]), rng.choice([0, 1]))
        if x == 1:
            return wire.write_request(rng.choice([0x11, 0x31, 0x32]), rng.choice([20, 94, 95, 110, 116, 5010]), rng.randrange(65536), ad)
        return wire.read_request(rng.randrange(256), rng.choice([3, 4, 0x16]), rng.randrange(65536), rng.randrange(1, 61), ad)
    x = rng.randrange(10)
    ad = bytes(rng.choice(b"ABCDEFGHJ0123456789") for _ in range(10))
    inv = bytes(rng.choice(b"ABCDEFGHJ0123456789") for _ in range(10))
    if x == 0:
        return wire.mbap(1, ad + bytes([rng.randrange(256)]), rng.choice([0, 1]))
    if x == 1:
        return wire.write_response(rng.choice([0x11, 0x31]), rng.randrange(400), rng.randrange(65536), inv, ad, error=rng.random() < 0.3)
    if x == 2:
        return wire.error_response(rng.randrange(256), rng.choice([3, 4, 0x16]), rng.randrange(65536), rng.randrange(1, 61), inv, ad)
    if x == 3:
        return wire.null_response(0x11, ad)
    if x == 4:
        csv = b",%d.%d.%d.%d,255.255.255.0,192.168.0.1\r\n\r\n" % tuple(rng.randrange(256) for _ in range(4))
        return wire.mbap(2, ad + b"\0" * 7 + csv + struct.pack(">H", rng.randrange(65536)))
    n = rng.choice([1, 2, 5, 30, 36, 60, 60])
    style = rng.randrange(4)
    if style == 0:
        vals = [rng.randrange(65536) for _ in range(n)]
    elif style == 1:          # whole of it looks like frame starts
        vals = [0x5959 if i % 2 == 0 else 1 for i in range(n)]
    elif style == 2:          # a misaligned marker and plausible header inside the payload
        raw = (b"\x00" + b"\x59\x59\x00\x01\x00\x1c\x01\x02" * 20)[: 2 * n].ljust(2 * n, b"\1")
        vals = list(struct.unpack(f">{n}H", raw))
    else:                     # an entire frame nested in the payload
        raw = (b"\x01\x02" + wire.heartbeat(bytes(ad)) + wire.read_request(0x11, 4, 0, 60)).ljust(2 * n, b"\2")[: 2 * n]
        vals = list(struct.unpack(f">{n}H", raw))
    return wire.read_response(rng.randrange(256), rng.choice([3, 4, 0x16]), rng.choice([0, 60, 1000, 0x5959]), vals, inv, ad,
                              bad_crc=0x1111 if rng.random() < 0.1 else 0)


def debris(rng, side):
    f = good_frame(rng, side)
    x = rng.randrange(14)
    if x == 0:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
    if x == 1:
        return f[: rng.randrange(1, len(f))]
    if x == 2:
        return f[rng.randrange(1, len(f)):]
    if x == 3:
        return b"\x59\x59\x00\x01" + struct.pack(">H", rng.choice([301, 302, 400, 0x7FFF, 65535])) + bytes([rng.choice([0, 1]), rng.choice([1, 2])]) + bytes(rng.choice([0, 0, 7, 8, 9]))
    if x == 4:
        return b"\x59\x59\x00\x01" + struct.pack(">H", rng.randrange(301)) + bytes([rng.choice([2, 3, 255, 1]), rng.choice([0, 3, 255])])
    if x == 5:
        n = rng.choice([0, 1, 2, 5, 11, 12, 13, 28, 38, 40, 158, 299, 300])
        return b"\x59\x59\x00\x01" + struct.pack(">H", n) + bytes([rng.choice([0, 1]), rng.choice([1, 2])]) + bytes(rng.randrange(256) for _ in range(rng.choice([0, n, n, max(0, n - 3)])))
    if x == 6:
        return b"\x59\x59\x00\x01"[: rng.randrange(1, 4)]
    if x == 7:
        b = bytearray(f)
        for _ in range(rng.choice([1, 1, 3])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)
    if x == 8:
        return bytes(rng.choice([0x59, 0, 1]) for _ in range(rng.randrange(1, 40)))
    if x == 9:                      # plausible header, malformed inside
        n = rng.randrange(0, 140)
        return wire.mbap(rng.choice([1, 2]), bytes(rng.choice([0, 3, 4, 6, 0x16, 0x83, 0x80, 0x2C, rng.randrange(256)]) for _ in range(n)), rng.choice([0, 1]))
    if x == 10:                     # right shape, unknown or odd function / count
        fc = rng.choice([0, 1, 2, 5, 0x10, 0x17, 0x7F, 0x80, 0x81, 0xFF, 3, 4, 0x16, 0x83])
        cnt = rng.choice([0, 1, 59, 60, 61, 100, 255, 65535])
        body = struct.pack(">HH", rng.randrange(65536), cnt) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 2, 2 * min(cnt, 70), 120, 124])))
        return wire.transparent(rng.randrange(256), fc, body, bytes(rng.choice(b"ABC123") for _ in range(10)), 8, 0,
                                bytes(rng.choice(b"ABC123") for _ in range(10)) if rng.random() < 0.8 else None)[:306]
    if x == 11:                     # trailing bytes inside an otherwise good frame
        b = bytearray(f + bytes(rng.randrange(1, 6)))
        b[4:6] = struct.pack(">H", len(b) - 6)
        return bytes(b)
    if x == 12:                     # lan-config lookalikes
        return wire.mbap(2, b"WO1234G567" + b"\0" * 7 + rng.choice([b"", b",", b",,", b",1", b",1.2.3.4", b",a,b,c,d\r\n", b",,,\n\n\r"]) + bytes(rng.randrange(0, 4)))
    return b"\xff" * rng.choice([1, 17, 18, 300])


def near(s):
    """A marker starting 15..17 bytes after another one with a plausible header is seen or not depending on how much is buffered."""
    m, i, pos = b"\x59\x59\x00\x01", 0, []
    while (j := s.find(m, i)) >= 0:
        pos.append(j)
        i = j + 1
    return any(15 <= b - a <= 17 and int.from_bytes(s[a + 4:a + 6], "big") <= 300 and s[a + 6] < 2 and s[a + 7] in (1, 2)
               for a in pos for b in pos)


def run(chk):
    rng = random.Random(chk.seed * 7919 + {"F01": 1, "F02": 2, "F03": 3}[chk.pid])
    q = chk.quick
    traces, jobs = [], []
    gen = lambda side, debris_: lambda: chk.generate(  # noqa: E731
        "GenWire", f'SPECIFICATION GSpec\nCONSTANTS\n Side = "{side}"\n Debris = {debris_}\n Steps = 8\n', leg=f"gen:{side}:{debris_}",
        simulate=f"num={60 if q else 1500}", extra=["-depth", "10", "-seed", str(chk.seed)], workers=1, timeout=3000)
    base = "SPECIFICATION Spec\nCONSTANTS\n Garbage = {}\n GarbageLen = {}\n Frames = {}\n Chunks = {}\n WithMarkers = {}\n FrameSizes = {}\n Alphabet = {}\n Kinds = {}\nINVARIANTS {}\n"
    if chk.pid == "F01":
        cfg = base.format("{}", 0, 3, "{1,2,3,5,8,30}", "TRUE", "{2,3,4}" if q else "{2,3,4,5}", "{1,2}" if q else "{0,1,2}", "{0}", "Delivery Bounded Independent")
        jobs = [lambda: chk.model_check("MC_Framer", cfg, leg="mc:every-chunking", workers=6, timeout=9000), gen("c", "FALSE"), gen("s", "FALSE")]
    elif chk.pid == "F02":
        cfg = base.format("{1,2,9}", 4 if q else 5, 3 if q else 4, "{1,4,40}", "FALSE", "{2}", "{0,1}", "{0}", "CleanGarbage Implausible Recovery Bounded Independent")
        jobs = [lambda: chk.model_check("MC_Framer", cfg, leg="mc:garbage", workers=6, timeout=9000), gen("c", "TRUE"), gen("s", "TRUE")]
    else:
        cfg = f"SPECIFICATION Spec\nCONSTANTS Flip2 = {'FALSE' if q else 'TRUE'}\nINVARIANTS RoundTrip Noticed\n"
        jobs = [lambda: chk.model_check("MC_Wire", cfg, leg="mc:layout", workers=6, timeout=9000), gen("c", "FALSE"), gen("s", "FALSE")]
    res = chk.parallel(*jobs)
    for beh in res[1:]:
        traces += [feed_trace(b["side"], [bytes(x) for x in b["feeds"]]) for b in beh]
    n = 250 if q else 6000
    if chk.pid == "F01":
        for side in "cs":                   # every two-way split of a short stream, and byte by byte
            fs = [good_frame(rng, side) for _ in range(3)]
            fs = [f for f in fs if len(f) < 100][:2] + [wire.heartbeat() if side == "c" else wire.read_request(0x32, 4, 0, 60)]
            s = b"".join(fs)
            if not near(s):
                traces += [feed_trace(side, [s[:i], s[i:]]) for i in range(0, len(s) + 1)]
                traces.append(feed_trace(side, [bytes([b]) for b in s]))
            for _ in range(3 if q else 30):          # byte by byte, the longest frames included
                s = b"".join(good_frame(rng, side) for _ in range(3)) + (wire.read_response(0x11, 4, 60, [rng.randrange(9) for _ in range(60)]) if side == "c" else b"")
                if not near(s):
                    traces.append(feed_trace(side, [bytes([b]) for b in s]))
            s, want = b"", 20000 if q else 34000
            while len(s) < want:                     # and very many frames at once
                f = good_frame(rng, side)
                if not near(s[-20:] + f):
                    s += f
            traces.append(feed_trace(side, [s]))
        for _ in range(n):
            side = rng.choice("ccs")
            s = b"".join(good_frame(rng, side) for _ in range(rng.randrange(1, 8)))
            if not near(s):
                traces.append(feed_trace(side, chop(rng, s)))
    elif chk.pid == "F02":
        for _ in range(int(n * 1.6)):
            side = rng.choice("ccs")
            s = b"".join((debris if rng.random() < rng.choice([0.15, 0.5]) else good_frame)(rng, side) for _ in range(rng.randrange(2, 9)))
            if not near(s):
                traces.append(feed_trace(side, chop(rng, s)))
        for side in "cs":       # a header that cannot be genuine, close before a frame that is, cut anywhere
            f = wire.heartbeat() if side == "c" else wire.read_request(0x32, 4, 0, 60)
            for head in ("5959000101 2d0102", "595900010013 0201", "595900010013 0103"):
                for pad in range(0, 15):
                    s = bytes.fromhex(head) + b"\xaa" * pad + f + f
                    if not near(s):
                        cuts = range(1, 32) if pad >= 6 else (8, 17, 18, 19, 21, 22)
                        traces += [feed_trace(side, [s[:c], s[c:]]) for c in cuts]
    else:
        for _ in range(n):
            side = rng.choice("ccs")
            traces.append(feed_trace(side, [(debris if rng.random() < 0.4 else good_frame)(rng, side) for _ in range(4)]))
        traces = [t for t in traces if not near(b"".join(bytes(e["b"]) for e in t["ev"]))]
        enc = enc_traces(rng, 600 if q else 8000) + [defaults()]
        # what was encoded must decode to the same message on the receiving side
        for t in list(enc):
            for e in t["ev"]:
                if not e["refused"] and rng.random() < 0.3:
                    traces.append(feed_trace("s" if e["m"]["k"][0] == "q" or e["m"]["k"] == "hbr" else "c", [bytes(e["bytes"])]))
        traces += enc
    chk.leg("driver", traces=len(traces), bytes=sum(len(e["b"]) for t in traces for e in t["ev"]))
    rej = chk.validate("TraceWire", "SPECIFICATION Spec\n", traces, shards=8, timeout=3000)
    chk.sample({"feeds": [bytes(e["b"]).hex() for e in traces[0]["ev"]][:3], "out": [o["k"] for e in traces[0]["ev"] for o in e.get("out", [])]})
    for tid, info in rej:
        for d in info or [{"clause": "not explained", "i": len(traces[tid]["ev"]), "want": "?"}]:
            e = traces[tid]["ev"][d["i"] - 1]
            got = [o["k"] for o in e["out"]] if e["k"] == "feed" else (e["m"], e["ty"], e["inst"], e["refused"], bytes(e["bytes"]).hex())
            chk.violation(f"{e['k']} #{d['i']} of trace {tid} ({traces[tid]['side']}): {d['clause']}; specification {d['want']}, observed {got} {e['exc']}",
                          replay={"side": traces[tid]["side"], "events": traces[tid]["ev"][: d["i"]]})
