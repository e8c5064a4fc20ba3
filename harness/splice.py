"""Battery-pack guard: drive the real Plant with reading histories, validate against Splice.tla."""
import random

import vt
import wire

from givenergy_modbus.framer import ClientFramer
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.register import IR
from givenergy_modbus.model.inverter import Model

SERIAL = [16968, 12848, 13365, 18225, 12851]
CELLS = range(16)
TEMPS = range(16, 20)
LIMITS = {**{i: 300 for i in CELLS}, **{i: 50 for i in (16, 17, 18, 19, 43, 44)}, 21: 200, 20: 1600, 40: 10,
          45: 50, 46: 50, 22: 4000, 24: 1500, 26: 1500, 28: 1500, 41: 1500}
PAIRS = {22, 24, 26, 28, 41}


def base():
    f = [0] * 60
    for i in CELLS:
        f[i] = 3300
    for i in (16, 17, 18, 19, 43, 44):
        f[i] = 250
    f[20], f[21], f[23] = 52800, 300, 52700
    f[25] = f[27] = f[42] = 16000
    f[29], f[37], f[38], f[40] = 9000, 16, 3005, 60
    f[45] = f[46] = 500
    f[31], f[36], f[55] = 0x0E10, 12, 8
    f[50:55] = SERIAL
    return f


def get_q(f, i):
    return (f[i] << 16 | f[i + 1]) if i in PAIRS else f[i]


def set_q(f, i, v):
    f = list(f)
    if i in PAIRS:
        v %= 1 << 32
        f[i], f[i + 1] = v >> 16, v & 0xFFFF
    else:
        f[i] = v % 65536
    return f


def chg(f, **kw):
    f = list(f)
    for k, v in kw.items():
        f[int(k[1:])] = v
    return f


class Run:
    """One plant, fed a history; records what the guard did."""

    def __init__(self, heal=900.0, surge=None, caps=None, stamp="aware"):
        self.plant = Plant(splice_heal_seconds=heal, splice_reject_heal_seconds=surge)
        if caps:
            self.plant.capabilities = caps
        self.stamp = stamp
        self.t = 0
        self.tr = {"heal": round(heal * 1000), "surge": -1 if surge is None else round(surge * 1000), "ev": []}

    def cache(self, dev):
        c = self.plant.register_caches.get(dev)
        return [-1 if c is None or c.get(IR(60 + i)) is None else int(c[IR(60 + i)]) for i in range(60)]

    def snap(self, dev):
        return {d: dict(c) for d, c in self.plant.register_caches.items() if d != dev and c}

    def offer(self, words, off=0, dev=0x32, dt=30000):
        self.t += dt
        before = self.snap(dev)
        exc = ""
        try:
            msgs = wire.decode_one(ClientFramer, wire.read_response(dev, 4, 60 + off, words))
            vt.CLOCK.now = self.t / 1000
            for m in msgs:
                if self.stamp == "clock":
                    self.plant.update(m)
                elif self.stamp == "naive":
                    self.plant.update(m, received_at=vt.at(self.t / 1000).replace(tzinfo=None))
                else:
                    self.plant.update(m, received_at=vt.at(self.t / 1000))
        except Exception as e:  # noqa: BLE001 - an exception is an observation
            exc = repr(e)
        p = self.plant
        self.tr["ev"].append({
            "dev": dev, "t": self.t, "off": off, "words": list(words), "exc": exc,
            "cache": self.cache(dev), "others": 0 if before == self.snap(dev) else 1,
            "rej": p.splice_reject_count.get(dev, 0), "held": p.splice_held_count.get(dev, 0),
            "cold": p.cold_start_held_count.get(dev, 0)})
        return self

    def warm(self, f=None, dev=0x32):
        f = f or base()
        return self.offer(f, dev=dev).offer(f, dev=dev)


def boundaries():
    """Every quantity at and just past its limit, in both directions, warm and at cold start."""
    out = []
    b = base()
    for i in sorted(LIMITS):
        r = Run()
        mid = set_q(b, i, 30000 if i not in PAIRS else 65536 + 30000)
        r.warm(mid)
        v = get_q(mid, i)
        L = LIMITS[i]
        for d in (L, -L, L + 1, -L - 1):
            r.offer(set_q(mid, i, v + d)).offer(mid)
        r.offer(set_q(mid, i, v + L + 1)).offer(set_q(mid, i, v + L + 1))        # confirmed step
        v2 = v + L + 1
        r.offer(set_q(mid, i, v2 + L + 5)).offer(set_q(mid, i, v2 + 2 * L + 5))  # confirmed, within limit of held
        v3 = v2 + 2 * L + 5
        r.offer(set_q(mid, i, v3 + L + 5)).offer(set_q(mid, i, v3 + 2 * L + 6))  # too far from held: held again
        out.append(r.tr)
        for d, e in ((L, 0), (L + 1, 0), (-L, 0), (-L - 1, 0)):
            r = Run(stamp="clock")
            r.offer(mid).offer(set_q(mid, i, v + d)).offer(set_q(mid, i, v + d)).offer(mid)
            out.append(r.tr)
        if i in PAIRS:   # high word, low word each alone / wrap of low word
            r = Run()
            lo = set_q(b, i, 65536 - 100)
            r.warm(lo).offer(set_q(lo, i, 65536 + 100)).offer(set_q(lo, i, 2 * 65536 + 100)).offer(set_q(lo, i, 100))
            out.append(r.tr)
    return out


def pairs_of_jumps(rng):
    """Two quantities jumping together, all combinations (sampled), and jump + constant."""
    out = []
    b = base()
    qs = sorted(LIMITS)
    for i in qs:
        j = rng.choice([q for q in qs if q != i])
        r = Run().warm(b)
        f = set_q(set_q(b, i, get_q(b, i) + LIMITS[i] + 1), j, get_q(b, j) + LIMITS[j] + 1)
        r.offer(f).offer(f).offer(b).offer(set_q(b, i, get_q(b, i) + LIMITS[i] + 1)).offer(f).offer(
            set_q(b, i, get_q(b, i) + LIMITS[i] + 1))
        out.append(r.tr)
    for i in list(range(30, 37)) + [39] + list(range(47, 50)) + list(range(55, 60)):   # unguarded words
        r = Run().warm(b)
        r.offer(set_q(b, i, 65535)).offer(b)
        out.append(r.tr)
    return out


def constants():
    out = []
    b = base()
    for i in (37, 38):
        for heal, dt, n in ((900, 30000, 33), (900, 100000, 12), (900, 90000, 12), (120, 30000, 13), (10, 1000, 13),
                            (270, 30000, 12), (270.001, 30000, 12), (0, 1000, 12), (100, 250000, 12)):
            r = Run(heal=heal).warm(b)
            f = chg(b, **{f"i{i}": b[i] + 1})
            for _ in range(n):
                r.offer(f, dt=dt)
            r.offer(b).offer(b)
            out.append(r.tr)
        f, g = chg(b, **{f"i{i}": b[i] + 1}), chg(b, **{f"i{i}": b[i] + 2})
        # interruptions of the run
        inter = [b, g, chg(b, i40=90), chg(b, i40=0, i43=0), chg(f, i40=90), chg(f, i40=0, i43=0),
                 chg(f, i16=0, i17=0), chg(b, i52=13366), chg(f, i52=13366), chg(b, i37=b[37] + 3, i38=b[38] + 3)]
        for z in inter:
            r = Run(heal=100).warm(b)
            for k in range(24):
                r.offer(z if k == 8 else f)
            out.append(r.tr)
            r = Run(heal=100).warm(b)       # interruption exactly where the run would complete
            for k in range(14):
                r.offer(z if k == 9 else f)
            out.append(r.tr)
        for k, kw in enumerate(({"off": 0, "w": [3301]}, {"off": 38, "w": [b[38] + 1]}, {"off": 38, "w": [b[38]]},
                                {"off": 16, "w": [0, 0]})):
            r = Run(heal=100).warm(b)
            for n in range(14):
                r.offer(f)
                if n == 5:
                    r.offer(kw["w"], off=kw["off"])
            out.append(r.tr)
    for i in range(50, 55):
        r = Run(heal=10).warm(b)
        f = chg(b, **{f"i{i}": b[i] + 1})
        for _ in range(13):
            r.offer(f)
        r.offer(b).offer(f, dt=300001).offer(b)
        out.append(r.tr)
        r = Run()
        r.offer(b).offer(f).offer(f)
        out.append(r.tr)
    # both constants together, and a different subset each time
    f = chg(b, i37=14, i38=3010)
    r = Run(heal=100).warm(b)
    for k in range(13):
        r.offer(f)
    out.append(r.tr)
    r = Run(heal=100).warm(b)
    for k in range(13):
        r.offer(f if k % 2 else chg(b, i38=3010))
    out.append(r.tr)
    return out


def escrow():
    out = []
    b = base()
    j, j2, i = chg(b, i40=90), chg(b, i40=75), chg(b, i21=900)
    k, c, s = chg(b, i40=0, i43=0), chg(b, i38=3010), chg(b, i52=13366)
    t, z = chg(b, i16=0, i17=0), [0] * 16 + b[16:]
    o, n = [0] * 60, chg(b, i52=0)
    for mid in (b, j, j2, i, k, c, s, t, z, o, n):
        r = Run().warm(b)
        r.offer(j).offer(mid).offer(j).offer(j)
        out.append(r.tr)
        r = Run().warm(b)
        r.offer(j).offer(mid, dt=300001).offer(j)
        out.append(r.tr)
        r = Run()
        r.offer(b).offer(mid).offer(b).offer(mid).offer(mid)
        out.append(r.tr)
        r = Run()
        r.offer(mid).offer(mid).offer(b).offer(b).offer(mid)
        out.append(r.tr)
    for w, off in (([90], 40), ([3300, 3299], 0), ([0, 0], 16), ([0], 16), ([0], 17), ([0, 250, 0], 16), ([0], 44),
                   (b[50:55], 50), ([13366], 52), ([0], 52), ([0] * 5, 50), ([0] * 16, 0), (b[:59], 0), ([0] * 59, 0),
                   (b[1:], 1)):
        for pos in (0, 1, 2, 3):
            r = Run()
            fr = [b, b, j, j]
            for q in range(4):
                if q == pos:
                    r.offer(w, off=off)
                r.offer(fr[q])
            r.offer(b).offer(b)
            out.append(r.tr)
    return out


def gaps():
    out = []
    b = base()
    frames = [chg(b, i40=90), chg(b, i40=0, i43=0), chg(b, i38=3010), chg(b, i52=13366), chg(b, i16=0, i17=0),
              chg(b, i18=0, i19=0), chg(b, i16=0), [0] * 16 + b[16:], [0] * 60, chg(b, i52=0), chg(b, i43=0, i44=0)]
    for f in frames:
        for dt in (299999, 300000, 300001):
            r = Run().warm(b)
            r.offer(f, dt=dt).offer(b).offer(f)
            out.append(r.tr)
            r = Run(stamp="clock")
            r.offer(b).offer(b, dt=dt).offer(f).offer(b)
            out.append(r.tr)
        # rejected readings keep the observation clock running
        r = Run().warm(b)
        for _ in range(12):
            r.offer(f, dt=60000)
        r.offer(chg(b, i40=0, i43=0), dt=60000)
        out.append(r.tr)
        # a partial reading is not an observation
        r = Run().warm(b)
        r.offer([3301], dt=200000).offer(f, dt=200000).offer(b)
        out.append(r.tr)
        # corrupt reading after the gap, healthy ones after it
        r = Run().warm(b)
        r.offer(f, dt=400000).offer(f).offer(chg(b, i40=0, i43=100)).offer(b)
        out.append(r.tr)
        # a gap while something is held
        r = Run(heal=100).warm(b)
        r.offer(chg(b, i38=3010)).offer(f, dt=400000)
        for _ in range(11):
            r.offer(chg(b, i38=3010))
        out.append(r.tr)
    return out


def surges():
    out = []
    b = base()

    def surge(k, c0=3700, v=58000):
        f = list(b)
        for i in CELLS:
            f[i] = c0 + 5 * k
        f[20] = 55000
        return set_q(f, 22, v + 10 * k)

    for sec, dt, n in ((300, 30000, 14), (300, 40000, 12), (270, 30000, 12), (270.5, 30000, 12), (10, 1000, 12), (0, 500, 12)):
        r = Run(surge=sec).warm(b)
        for k in range(n):
            r.offer(surge(k), dt=dt)
        out.append(r.tr)
    for z in (b, chg(b, i40=90), chg(b, i40=0, i43=0), surge(200), chg(surge(5), i38=3010), chg(surge(5), i40=0),
              chg(surge(5), i52=13366), [0] * 16 + b[16:], chg(surge(5), i16=0, i17=0), set_q(surge(5), 22, 15999),
              set_q(surge(5), 22, 80001)):
        for pos in (5, 9):
            r = Run(surge=100).warm(b)
            for k in range(22):
                r.offer(z if k == pos else surge(k))
            out.append(r.tr)
    # absolute plausibility, each class, at and past both ends
    def two(i, v):
        j = 0 if i != 0 else 1
        return set_q(set_q(b, i, v), j, 3700 if j in CELLS else v)
    for i in list(CELLS)[::5] + [20, 22, 24, 26, 28, 41]:
        for v in {0: (999, 1000, 5000, 5001)}.get(i if i not in CELLS else 0, (15999, 16000, 49999, 50000, 50001, 65535, 80000, 80001, 70000)):
            if i == 20 and v > 65535:
                continue
            f = two(i, v)
            if i in CELLS:
                f = set_q(set_q(b, i, v), (i + 1) % 16, 3700)
            r = Run(surge=5).warm(b)
            for k in range(11):
                r.offer(f, dt=1000)
            out.append(r.tr)
    for i in (16, 21, 40, 43, 45, 46):     # other quantities are never surge-healed
        r = Run(surge=5).warm(b)
        for k in range(11):
            r.offer(set_q(surge(k), i, get_q(b, i) + LIMITS[i] + 1), dt=1000)
        out.append(r.tr)
    r = Run(surge=None).warm(b)
    for k in range(14):
        r.offer(surge(k))
    out.append(r.tr)
    return out


def impossible():
    out = []
    b = base()
    z = [0] * 16 + b[16:]
    for keep in (38, 28, 29):
        f = list(z)
        for i in (38, 28, 29):
            f[i] = 0
        f[keep] = 5
        r = Run()
        r.offer(f).offer(f).offer(b).offer(b).offer(f).offer(f, dt=400000).offer(b)
        out.append(r.tr)
    f = list(z)
    f[38] = f[28] = f[29] = 0
    r = Run()
    r.offer(f).offer(f).offer(b).offer(b)       # zero cells without evidence of life: not impossible
    out.append(r.tr)
    f = list(z)
    f[7] = 1
    r = Run().offer(f).offer(f).offer(b).offer(b)
    out.append(r.tr)
    # an impossible baseline seeded by partial readings is replaced by two agreeing readings
    for heads in ([([0] * 16, 0), ([3005], 38)], [([0] * 16, 0), ([0, 9], 28)], [([0] * 15, 0), ([3005], 38)],
                  [([0] * 16, 0), ([0], 38)]):
        for tail in ([b, b, b], [b, chg(b, i40=90), chg(b, i40=90), b], [chg(b, i16=0, i17=0)] * 2 + [b, b], [z, b, b]):
            r = Run()
            for w, off in heads:
                r.offer(w, off=off)
            for f in tail:
                r.offer(f)
            out.append(r.tr)
        r = Run()
        for w, off in heads:
            r.offer(w, off=off)
        r.offer(b).offer(b, dt=300001).offer(b).offer(b)
        out.append(r.tr)
    return out


CAPS = [None, PlantCapabilities(device_type=Model.HYBRID, lv_battery_addresses=[0x32, 0x33]),
        PlantCapabilities(device_type=Model.AC, lv_battery_addresses=[0x32])]


def random_walk(rng, n=30):
    heal = rng.choice([900, 120, 300.5, 60])
    surge = rng.choice([None, None, 300, 60])
    r = Run(heal=heal, surge=surge, caps=rng.choice(CAPS), stamp=rng.choice(["aware", "naive", "clock"]))
    devs = rng.sample(range(0x32, 0x38), rng.choice([1, 1, 2, 3]))
    truth, last = {}, {}
    for k, d in enumerate(devs):
        f = base()
        f[54] = 12851 + k
        truth[d] = f
    mode = {d: None for d in devs}
    for _ in range(n):
        d = rng.choice(devs)
        f = truth[d]
        # genuine drift
        for i in rng.sample(sorted(LIMITS), 3):
            L = LIMITS[i]
            f = set_q(f, i, max(0, get_q(f, i) + rng.randint(-L // 3, L // 3)))
        truth[d] = f
        dt = rng.choice([1000, 15000, 30000, 30000, 30000, 60000, 90000, 299999, 300000, 300001, 600000]
                        if rng.random() < 0.3 else [10000, 30000, 30000, 45000])
        x = rng.random()
        if mode[d] and rng.random() < 0.8:
            r.offer(mode[d], dev=d, dt=dt)
            continue
        mode[d] = None
        if x < 0.45:
            r.offer(f, dev=d, dt=dt)
        elif x < 0.57:                                  # one quantity off
            i = rng.choice(sorted(LIMITS))
            g = set_q(f, i, max(0, get_q(f, i) + rng.choice([1, -1]) * (LIMITS[i] + rng.choice([0, 1, 2, 300]))))
            r.offer(g, dev=d, dt=dt)
            if rng.random() < 0.5:
                mode[d] = g
        elif x < 0.67:                                  # several off
            g = f
            for i in rng.sample(sorted(LIMITS), rng.choice([2, 3, 5])):
                g = set_q(g, i, rng.choice([0, 1, 65535, get_q(g, i) + LIMITS[i] + 1]))
            r.offer(g, dev=d, dt=dt)
            if rng.random() < 0.4:
                mode[d] = g
        elif x < 0.77:
            g = chg(f, **{f"i{rng.choice([37, 38, 37, 38, 50, 52, 54])}": rng.choice([0, 1, 0x4141, 3010])})
            r.offer(g, dev=d, dt=dt)
            if rng.random() < 0.7:
                mode[d] = g
        elif x < 0.84:
            g = rng.choice([chg(f, i16=0, i17=0), chg(f, i18=0, i19=0, i43=0, i44=0), [0] * 16 + f[16:], [0] * 60,
                            chg(f, i52=0), chg(f, i51=0x20FF), chg(f, i53=0xC9C9)])
            r.offer(g, dev=d, dt=dt)
            if rng.random() < 0.3:
                mode[d] = g
        elif x < 0.92:
            off = rng.randrange(60)
            k = rng.randint(1, min(59, 60 - off))
            w = f[off:off + k]
            if rng.random() < 0.2:
                w = [0] * k
            r.offer(w, off=off, dev=d, dt=dt)
        else:
            truth[d] = base()
            truth[d][54] = f[54]
            r.offer(truth[d], dev=d, dt=dt)
    return r.tr


LETTER = {
    "a": {}, "b": {40: 62, 0: 3350, 23: 53000}, "j": {40: 90}, "i": {21: 900}, "k": {40: 0, 43: 0}, "c": {38: 3010},
    "d": {38: 3010, 40: 1, 43: 0}, "t": {16: 0, 17: 0}, "z": {i: 0 for i in CELLS}, "s": {52: 13366}, "n": {52: 0},
    "u": {0: 3900, 1: 3900, 23: 59000}, "v": {0: 3950, 1: 3980, 23: 59500}, "w": {0: 900, 1: 900}}
PART = {"p": (16, [0, 0, 250, 250]), "q": (0, [3310, 3311, 3312])}


def replay(beh):
    """A behaviour generated by TLC from MC_Splice, stepped through the real plant."""
    r = Run(heal=60, surge=60 if beh["surge"] else None)
    for x, dt in zip(beh["x"], beh["dt"]):
        if x in PART:
            r.offer(PART[x][1], off=PART[x][0], dt=dt)
        elif x == "o":
            r.offer([0] * 60, dt=dt)
        else:
            f = base()
            f[31] = f[36] = f[55] = 0
            for k, v in LETTER[x].items():
                f[k] = v
            r.offer(f, dt=dt)
    return r.tr


ALLX = '{"a","b","j","i","k","c","d","t","z","s","n","o","u","v","w","p","q"}'


def mc_cfg(surge, steps, letters=ALLX):
    return f"""SPECIFICATION Spec
VIEW View
CONSTANTS
 SurgeOn = {surge}
 MaxSteps = {steps}
 MinPolls = 3
 Letters = {letters}
INVARIANTS NothingRottenServed Converges SurgeConverges
PROPERTIES WholeOrNothing ColdNeedsTwo NoContradiction ColdConverges GapAdopts Accounted
"""


def run(chk):
    rng = random.Random(chk.seed * 7919 + 17)
    steps = 4 if chk.quick else 8
    _, _, beh = chk.parallel(
        lambda: chk.model_check("MC_Splice", mc_cfg("TRUE", steps), leg="mc:surge-on", workers=4, timeout=6000),
        lambda: chk.model_check("MC_Splice", mc_cfg("FALSE", steps), leg="mc:surge-off", workers=3, timeout=6000),
        lambda: chk.generate("GenSplice", "SPECIFICATION GSpec\nCONSTANTS\n SurgeOn = TRUE\n MaxSteps = 20\n Letters = %s\n"
                             % ALLX, leg="gen", simulate=f"num={400 if chk.quick else 5000}", timeout=3000,
                             extra=["-depth", "25", "-seed", str(chk.seed)], workers=1))
    traces = [replay(b) for b in beh]
    for f in (boundaries, constants, escrow, gaps, surges, impossible):
        traces += f()
    traces += pairs_of_jumps(rng)
    traces += [random_walk(rng) for _ in range(300 if chk.quick else 4000)]
    rej = chk.validate("TraceSplice", "SPECIFICATION Spec\n", traces, shards=8)
    chk.sample({"readings": len(traces[0]["ev"]), "first": {k: traces[0]["ev"][0][k] for k in ("dev", "t", "rej", "held", "cold")}})
    chk.leg("driver", events=sum(len(t["ev"]) for t in traces))
    for tid, info in rej:
        for d in info or [{"clause": "not-explained", "i": 0}]:
            c = d["clause"]
            if chk.pid == "M02" and c == "counters":
                continue
            ev = traces[tid]["ev"][: d["i"]]
            chk.violation(f"battery reading #{d['i']} of history {tid}: {c} (specification: {d.get('want')})",
                          replay={"clause": c, "heal": traces[tid]["heal"], "surge": traces[tid]["surge"], "events": ev})
