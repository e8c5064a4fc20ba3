"""Independent construction and parsing of protocol frames (no code from the repository)."""
import struct


def crc(data):
    c = 0xFFFF
    for b in data:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
    return ((c & 0xFF) << 8) | (c >> 8)


def ser(s):
    b = s if isinstance(s, bytes) else s.encode("latin1")
    return b[-10:].rjust(10, b"*")


def mbap(fid, inner, uid=1):
    return struct.pack(">HHHBB", 0x5959, 1, len(inner) + 2, uid, fid) + inner


ADAPTER = "WF1234G567"
INVERTER = "SA1234G567"


def transparent(dev, tfc, body, adapter=ADAPTER, padding=0x8A, bad_crc=0, inv=None):
    head = bytes([dev, tfc]) + (ser(inv) if inv is not None else b"") + body
    return mbap(2, ser(adapter) + struct.pack(">Q", padding) + head + struct.pack(">H", crc(head) ^ bad_crc))


def read_response(dev, fc, base, values, inv=INVERTER, adapter=ADAPTER, bad_crc=0, count=None):
    n = len(values) if count is None else count
    body = struct.pack(">HH", base, n) + b"".join(struct.pack(">H", v) for v in values)
    return transparent(dev, fc, body, adapter, 0x8A, bad_crc, inv)


def error_response(dev, fc, base, count, inv=INVERTER, adapter=ADAPTER, bad_crc=0):
    return transparent(dev, fc | 0x80, struct.pack(">HH", base, count), adapter, 0x12, bad_crc, inv)


def write_response(dev, reg, value, inv=INVERTER, adapter=ADAPTER, bad_crc=0, error=False):
    return transparent(dev, 6 | (0x80 if error else 0), struct.pack(">HH", reg, value), adapter, 0x8A, bad_crc, inv)


def null_response(dev=0x11, adapter=ADAPTER, inv=b"\0" * 10):
    return transparent(dev, 0, b"\0" * 124, adapter, 0x8A, 0, inv)


def heartbeat(adapter=ADAPTER, kind=1):
    return mbap(1, ser(adapter) + bytes([kind]))


def read_request(dev, fc, base, count, adapter="AB1234G567"):
    return transparent(dev, fc, struct.pack(">HH", base, count), adapter, 8)


def write_request(dev, reg, value, adapter="AB1234G567"):
    return transparent(dev, 6, struct.pack(">HH", reg, value), adapter, 8)


def parse_tx(data):
    """Bytes the client wrote -> list of records; anything not a whole well-formed frame is 'junk'."""
    res = []
    while data:
        rec, data = _one(data)
        res.append(rec)
    return res


def _one(d):
    if len(d) < 8 or d[:4] != b"\x59\x59\x00\x01":
        return {"k": "junk", "hex": d.hex()}, b""
    n = 6 + struct.unpack(">H", d[4:6])[0]
    if len(d) < n:
        return {"k": "junk", "hex": d.hex()}, b""
    f, rest = d[:n], d[n:]
    body = f[8:]
    if f[7] == 1 and len(body) == 11:
        return {"k": "hb", "ser": body[:10].decode("latin1"), "type": body[10], "uid": f[6]}, rest
    if f[7] == 2 and len(body) == 10 + 8 + 2 + 4 + 2:
        dev, tfc = body[18], body[19]
        a, b, c = struct.unpack(">HHH", body[20:26])
        kind = {3: "rh", 4: "ri", 6: "w", 0x16: "rm"}.get(tfc)
        if kind and c == crc(body[18:24]) and f[6] == 1 and body[10:18] == b"\0" * 7 + b"\x08":
            return {"k": kind, "dev": dev, "a": a, "b": b, "ser": body[:10].decode("latin1")}, rest
    return {"k": "junk", "hex": f.hex()}, rest


async def decode_all(framer, data):
    return [m async for m in framer.decode(data)]


def decode_one(framer_cls, data):
    """Drive an async generator to completion without an event loop (decode never awaits)."""
    f = framer_cls()
    return drive(decode_all(f, data))


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("coroutine awaited something")
