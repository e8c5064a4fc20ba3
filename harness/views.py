"""What the accessors of real plants show, validated against Views.tla."""
import random

import vt  # noqa: F401
from decode import REGS, cache_of, canon, contents, known, observe, serial
from devices import rand_caps
from detect import NOCAPS, caps_rec
from poll import build, report

from givenergy_modbus.model.plant import Plant

ADDRS = [1, 2, 3, 5, 8, 17, 33, 49, 50, 51, 52, 53, 54, 55, 56, 80, 81, 82, 83, 84, 85, 90, 112, 113, 114, 128, 143, 160]


def seen(m):
    e = {"vals": {}, "raised": []}
    observe(m, e)
    if e["raised"]:
        raise AssertionError(f"{type(m).__name__}: {e['raised'][0]}")
    return {"cls": type(m).__name__, "vals": e["vals"]}


def unit(u):
    return {"src": u.data_source, "serial": [ord(c) for c in u.serial_number], "blinded": u.is_blinded, "own": [len(u.batteries), len(u.hv_stacks), len(u.battery_modules)],
            "direct": [] if u.direct is None else [seen(u.direct)], "summary": u.summary is not None,
            "facts": {n: canon(getattr(u, n)) for n in ("status", "p_inverter_out", "battery_soc", "t_inverter_heatsink")}}


def shown(p):
    fleet = [unit(u) for u in p.inverters]
    index = []
    for s, u in p.serial_index.items():
        d = unit(u)
        index.append([[ord(c) for c in s], max([j + 1 for j, f in enumerate(fleet) if f == d], default=0)])
    energy = p.remaining_battery_energy_wh
    opt = lambda m: [] if m is None else [seen(m)]
    dump = lambda ms: [m.model_dump() for m in ms]
    for u in p.inverters:
        if u.batteries or u.hv_stacks or u.battery_modules:
            if dump(u.batteries) != dump(p.batteries) or dump(u.battery_modules) != dump(p.aio_battery_modules) or \
               [(x.device_address, dump(x.bmus)) for x in u.hv_stacks] != [(x.device_address, dump(x.bmus)) for x in p.hv_stacks]:
                raise AssertionError("an inverter's own devices are not the plant's")
    return {"inverter": seen(p.inverter), "packs": [seen(b) for b in p.batteries], "count": p.number_batteries, "meters": [{"d": a, "m": seen(m)} for a, m in p.meters.items()],
            "modules": [{"d": m.module_address, "m": seen(m)} for m in p.aio_battery_modules],
            "stacks": [{"d": s.device_address, "bcu": seen(s.bcu), "bmus": [{"n": b.bmu_index, "m": seen(b)} for b in s.bmus]} for s in p.hv_stacks],
            "ems": opt(p.ems), "gateway": opt(p.gateway), "lvbcu": opt(p.lv_bcu), "fleet": fleet, "index": index, "energy": canon(energy)}


def look(p):
    caps = NOCAPS if p.capabilities is None else caps_rec(p.capabilities)
    held = lambda: {d: dict(c) for d, c in p.register_caches.items()}
    before = held()
    e = {"k": "plant", "out": "ok", "touched": False, "got": {},
         "plant": {"caps": caps, "caches": [{"d": d, "c": known(names(c))} for d, c in before.items()], "directs": [known(names(c)) for c in p._verif_directs]}}
    try:
        e["got"] = shown(p)
    except Exception as x:  # noqa: BLE001
        e["out"] = f"{x!r}"[:200]
    e["touched"] = held() != before
    return e


def names(c):
    return {f"{r.reg_type}_{r.index}": v for r, v in c.items()}


class Seeded(Plant):
    """A plant that remembers what it was given (only for the record)."""
    _verif_directs: list = []


def one(cls, rng, k):
    return list(contents(cls, rng, k))[-1]


def directs(rng, named):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        three = rng.random() < 0.25
        c = one("ThreePhaseInverter" if three else "SinglePhaseInverter", rng, rng.randint(1, 6))
        if rng.random() < 0.9:
            c["HR_0"] = rng.choice([0x4001, 0x6001, 0x8201]) if three else rng.choice([0x2001, 0x3001, 0x8001, 0x2101, 0x8301])
        if rng.random() < 0.85:
            c.update(zip([f"HR_{i}" for i in range(13, 18)], rng.choice(named) if named and rng.random() < 0.7 else serial(rng)))
        if rng.random() < 0.5:
            for r in ("IR_59", "IR_41", "IR_0", "IR_1132", "IR_1128", "IR_1000"):
                c[r] = rng.choice([0, 1, 50, 250])
        if rng.random() < 0.1:
            c["HR_0"] = rng.choice([0, 0x1001, 0x9001, 0xABCD])
        if rng.random() < 0.1:
            c.pop("HR_21", None)
        if rng.random() < 0.07:
            c.pop("HR_0", None)
        out.append(c)
    return out


def plant(rng):
    c = rand_caps(rng) if rng.random() < 0.88 else None
    if c is not None and rng.random() < 0.35:
        c["model"] = rng.choice(["EMS", "EMS_COMMERCIAL"])
    if c is not None:
        c["bcu"] = rng.choice([-1, 49, 160])
        c["stacks"] = c["stacks"][:2]
    caches = {}
    for d in ADDRS:
        if rng.random() < 0.2:
            continue
        cls = "Meter" if d < 9 else "Battery" if 50 <= d < 56 else rng.choice(["AioBatteryModule", "Bmu"]) if 80 <= d < 112 else "Bcu" if d >= 112 else rng.choice(["SinglePhaseInverter", "LvBcu"])
        if d in (17, 49):
            m = c["model"] if c else "AC"
            cls = "Ems" if "EMS" in m else "GatewayV1" if m == "GATEWAY" else "ThreePhaseInverter" if "3PH" in m or m in ("AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID") else "SinglePhaseInverter"
            if d == 49 and c and c["bcu"] == 49 and c["inv"] != 49:
                cls = "LvBcu"
        x = one(cls, rng, rng.randint(1, 6))
        if cls == "Battery":
            x["IR_88"] = 0
            if rng.random() < 0.75:
                x.update(zip([f"IR_{i}" for i in range(110, 115)], [0x4247, 0x3232 + d, 0x3336, 0x4731, 0x3233]))
        if cls in ("Ems", "GatewayV1"):
            x.update({k: v for k, v in one("SinglePhaseInverter", rng, 3).items() if k[:3] == "HR_" and rng.random() < 0.6 and int(k[3:]) < 60})
        if rng.random() < 0.06:
            x = {}
        caches[d] = cache_of(x)
    named = []
    if c and "EMS" in c["model"]:
        at = caches.get(c["inv"]) or caches.get(17)
        for n in range(4):
            named.append(serial(rng))
            if at is not None and rng.random() < 0.75:
                for i, w in enumerate(named[-1]):
                    at.update(cache_of({f"IR_{2066 + 5 * n + i}": w}))
        if at is not None and rng.random() < 0.2:
            at.update(cache_of({f"IR_{2071 + i}": w for i, w in enumerate(named[0])}))   # two slots of one serial
    p = Seeded(register_caches=caches)
    p._verif_directs = []
    if c is not None:
        p.capabilities = build(c)
        p.capabilities.inverter_address = c["inv"]
    for x in directs(rng, named):
        rc = cache_of(x)
        p._verif_directs.append(rc)
        p.add_direct_source({17: rc})
    return p


def run(chk):
    chk.assumptions += ["what each device model reads from its registers is X02 (Decode.tla), which is used as the oracle here too"]
    n = 160 if chk.quick else 6000

    def real():
        rng = random.Random(f"views-{chk.seed}")
        traces = [{"ev": [look(plant(rng)) for _ in range(2)]} for _ in range(n)]
        chk.leg("plants", plants=2 * n, fleets=sum(len(e["got"].get("fleet", [])) > 1 for t in traces for e in t["ev"]))
        chk.sample({k: traces[0]["ev"][0]["plant"][k] for k in ("caps",)})
        report(chk, traces, chk.validate("TraceViews", "SPECIFICATION Spec\n", traces, shards=6 if chk.quick else 8, timeout=3000))

    chk.parallel(lambda: chk.model_check("MC_Views", f"INIT Init\nNEXT Next\nINVARIANT Ok\nCONSTANT Deep = {'FALSE' if chk.quick else 'TRUE'}\n", workers=4, timeout=1500), real)
