"""Command builders and the two write entry points of the real client, validated against Commands.tla and Writes.tla."""
import asyncio
import datetime
import random

import vt
import wire

from givenergy_modbus.client import commands
from givenergy_modbus.client.client import Client
from givenergy_modbus.model import TimeSlot
from givenergy_modbus.model.ems import Ems
from givenergy_modbus.model.inverter import Model, SinglePhaseInverter, resolve_model
from givenergy_modbus.model.inverter_threephase import ThreePhaseInverter
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.register import HR
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.model.slot_map import EMS_SLOTS, EXTENDED_SLOTS, SINGLE_PHASE_SLOTS, THREE_PHASE_SLOTS
from givenergy_modbus.pdu import ReadHoldingRegistersRequest, WriteHoldingRegisterRequest

MODELS = ["none", "HYBRID", "AC", "HYBRID_3PH", "EMS", "AC_3PH", "GATEWAY", "ALL_IN_ONE", "HYBRID_GEN1", "HYBRID_GEN2", "HYBRID_GEN3", "POLAR",
          "AIO_COMMERCIAL", "EMS_COMMERCIAL", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID", "HYBRID_GEN4"]
SLOTMAPS = {"single": SINGLE_PHASE_SLOTS, "ext": EXTENDED_SLOTS, "three": THREE_PHASE_SLOTS, "ems": EMS_SLOTS}

# ---------------------------------------------------------------- arguments
OTHER = object()


def num(v):
    return {"k": "num", "m": round(v * 1000)}, v


def time_(v):
    return {"k": "time", "v": v}, datetime.time(v // 100, v % 100, 17)


def slot(s, e):
    return {"k": "slot", "s": s, "e": e}, TimeSlot(datetime.time(s // 100, s % 100), datetime.time(e // 100, e % 100, 59))


def date(*a):
    return dict(zip(("k", "y", "mo", "d", "h", "mi", "se"), ("date",) + a)), datetime.datetime(*a)


def other(v):
    return {"k": "other"}, v


NONE = ({"k": "none"}, None)
TRUE, FALSE = ({"k": "bool", "b": True}, True), ({"k": "bool", "b": False}, False)
JUNK = [TRUE, FALSE, other("50"), other(float("nan")), other(float("inf")), other(float("-inf")), other([50]), other(b"5"), other(50j), NONE]
FRACTIONS = [num(x) for x in (0.5, 1.5, 2.001, 3.999, 4.5, 50.25, 99.5, 99.999, 100.5, -0.5)]
INTEGRAL = [num(x) for x in (-1.0, 0.0, 4.0, 50.0, 100.0, 101.0)]
WIDE = [num(x) for x in (-70000, -32768, -100, 255, 256, 300, 1000, 32767, 32768, 65535, 65536, 65540, 70000)]
ALL = [num(x) for x in range(-3, 106)]
HHMM = [h * 100 + m for h in range(24) for m in range(60)]

PLAIN = ["set_charge_target_soc", "set_battery_soc_reserve", "set_shallow_charge", "set_battery_reserve_soc", "set_battery_charge_limit",
         "set_battery_discharge_limit", "set_battery_power_reserve", "set_active_power_rate", "set_battery_charge_limit_ac",
         "set_battery_discharge_limit_ac", "set_export_priority", "set_battery_pause_mode", "set_ems_export_power_limit",
         "set_charge_target_enabled", "set_charge_target", "set_calibrate_battery_soc", "set_battery_soc_reserve_3ph",
         "set_charge_target_enabled_3ph", "set_charge_target_3ph", "set_charge_target_soc_3ph"]
PLAIN_I = ["set_battery_nominal_power", "set_battery_nominal_current", "set_battery_max_charge_pct", "set_ev_charger_soc_limit",
           "set_generator_start_soc", "set_generator_stop_soc", "set_smart_load_control_soc", "set_general_load_control_soc",
           "set_generator_control_soc", "set_export_power_rate"]
EXACT = {"set_export_priority", "set_battery_pause_mode", "set_calibrate_battery_soc"}     # whole floats: either way
SWITCH = ["set_enable_charge", "set_enable_discharge", "set_enable_rtc", "set_enable_eps", "set_ac_charge", "set_force_charge",
          "set_force_discharge", "set_ems_plant"]
SWITCH_I = ["set_anti_islanding_detection", "set_grid_import_limit_enabled", "set_enable_plant_mode", "set_enable_micro_grid",
            "set_enable_ev_charger", "set_enable_generator", "set_enable_smart_load", "set_enable_export_limit_3ph",
            "set_enable_import_limit_3ph", "set_peak_shaving_export_limit_enabled", "set_peak_shaving_enabled"]
FIXED = ["disable_charge_target", "set_inverter_reboot", "set_discharge_mode_max_power", "set_discharge_mode_to_match_demand",
         "set_mode_dynamic", "enable_charge", "disable_charge", "enable_discharge", "disable_discharge", "disable_charge_target_3ph"]
GRID_V = ["set_v_ac_low_limit_trip", "set_v_ac_high_limit_trip", "set_v_ac_low_limit_reconnect", "set_v_ac_high_limit_reconnect",
          "set_v_ac_low_limit_grid", "set_v_ac_high_limit_grid", "set_v_ac_10min_protect"]
GRID_F = ["set_f_ac_low_limit_trip", "set_f_ac_high_limit_trip", "set_f_ac_low_limit_reconnect", "set_f_ac_high_limit_reconnect",
          "set_f_ac_low_limit_grid", "set_f_ac_high_limit_grid"]
GRID_S = ["set_t_ac_low_voltage_trip", "set_t_ac_high_voltage_trip", "set_t_ac_low_freq_trip", "set_t_ac_high_freq_trip",
          "set_t_ac_low_voltage_reconnect", "set_t_ac_high_voltage_reconnect", "set_t_ac_low_freq_reconnect", "set_t_ac_high_freq_reconnect"]
DESTRUCTIVE = ["reset_energy_totals", "three_phase_factory_reset", "enable_black_start", "restore_factory_defaults"]
SLOT_HALF = ["set_charge_slot_start", "set_charge_slot_end", "set_discharge_slot_start", "set_discharge_slot_end"]
SLOT_WHOLE = ["set_charge_slot", "set_discharge_slot"]
SLOT_RESET = ["reset_charge_slot", "reset_discharge_slot"]
EXPORT = ["set_export_slot_start", "set_export_slot_end", "set_export_slot"]
EMS_SLOT = ["set_ems_charge_slot", "set_ems_charge_slot_start", "set_ems_charge_slot_end", "set_ems_discharge_slot",
            "set_ems_discharge_slot_start", "set_ems_discharge_slot_end", "set_ems_export_slot", "set_ems_export_slot_start",
            "set_ems_export_slot_end"]
SMART = ["set_smart_load_slot_start", "set_smart_load_slot_end", "set_smart_load_slot"]
TARGETS = ["set_ems_charge_target_soc", "set_ems_discharge_target_soc", "set_ems_export_target_soc"]
OLD = ["set_charge_slot_1", "set_charge_slot_2", "set_discharge_slot_1", "set_discharge_slot_2"]
OLD_RESET = ["reset_charge_slot_1", "reset_charge_slot_2", "reset_discharge_slot_1", "reset_discharge_slot_2"]

ON_INVERTER = ["disable_charge_target", "set_charge_target_enabled", "set_charge_target", "set_charge_target_soc", "set_enable_charge",
               "set_enable_discharge", "set_inverter_reboot", "set_calibrate_battery_soc", "set_active_power_rate", "set_enable_rtc",
               "set_system_date_time", "set_export_priority", "set_enable_eps", "set_discharge_mode_max_power",
               "set_discharge_mode_to_match_demand", "set_battery_soc_reserve", "set_battery_charge_limit", "set_battery_discharge_limit",
               "set_battery_power_reserve", *SLOT_HALF, *SLOT_WHOLE, *SLOT_RESET, "set_mode_dynamic", "set_mode_storage"]
ON_THREE = [*ON_INVERTER, "set_ac_charge", "set_force_charge", "set_force_discharge", "set_battery_reserve_soc"]
ON_EMS = ["set_ems_plant", *EXPORT, *EMS_SLOT, *TARGETS, "set_ems_export_power_limit"]


def cache_of(regs):
    return RegisterCache({HR(r): v for r, v in regs.items()})


def inverter(layout, regs=None):
    """An object of the class the library gives for such a plant."""
    if layout == "ems":
        return Ems.from_register_cache(cache_of(regs or {}))
    if layout == "three":
        return ThreePhaseInverter.from_register_cache(cache_of(regs or {}))
    r = dict(regs or {})
    r[0], r[21] = (0x2001, 449) if layout == "single" else (0x2001, 303)      # hybrid gen 1 / gen 3
    if layout == "ext":
        r[21] = 303
    return SinglePhaseInverter.from_register_cache(cache_of(r))


class Recorder:
    def __init__(self):
        self.ev = []
        self.objs = {x: inverter(x) for x in SLOTMAPS}

    def call(self, name, layout, args, confirm=None, how="method", plant=None):
        mark = len(self.ev)
        res = self._call(name, layout, args, confirm, how)
        for e in self.ev[mark:]:
            e.update({"layout": "plant", "code": plant[0], "fw": plant[1]} if plant else {})
        return res

    def _call(self, name, layout, args, confirm, how):
        enc = [a[0] for a in args]
        vals = [a[1] for a in args]
        try:
            if how == "method":
                f = getattr(self.objs[layout], name)
            else:
                f = getattr(commands, name)
        except AttributeError:
            self.ev.append({"k": "build", "name": name, "layout": layout, "a": enc, "confirm": bool(confirm), "ok": False, "w": [], "how": how,
                            "error": "no such command"})
            return None
        kw = {} if confirm is None else {"confirm": confirm}
        if how == "mapped":
            kw["slot_map"] = SLOTMAPS[layout]
        try:
            reqs = f(*vals, **kw)
            ok = True
        except Exception as e:
            reqs, ok, err = [], False, repr(e)
        e = {"k": "build", "name": name, "layout": layout, "a": enc, "confirm": bool(confirm), "ok": ok, "how": how,
             "w": [{"reg": int(q.register), "val": int(q.value), "inst": bool(q.installer), "dev": q.device_address}
                   if isinstance(q, WriteHoldingRegisterRequest) else {"reg": -1, "val": -1, "inst": False, "dev": -1} for q in reqs]}
        if not ok:
            e["error"] = err
        self.ev.append(e)
        return reqs if ok else None


def args_for(name, rng, quick):
    """Argument tuples worth trying for one command."""
    few = rng.sample(HHMM, 12 if quick else 200) + [0, 1, 59, 100, 1000, 2359]
    idx = [num(j) for j in range(-2, 13)] + [TRUE, FALSE, num(1.5), num(2.0), other("1"), NONE, other(float("nan"))]
    slots = [slot(rng.choice(HHMM), rng.choice(HHMM)) for _ in range(6)] + [slot(0, 0), slot(0, 2359), slot(2359, 0), slot(1600, 700), NONE]
    if name in PLAIN or name in PLAIN_I:
        res = ALL + WIDE + FRACTIONS + JUNK + ([] if name in EXACT else INTEGRAL)
        if name == "set_calibrate_battery_soc":
            return [()] + [(a,) for a in res if a is not NONE]
        if name == "set_export_power_rate":
            res = res + [num(round(x / 10, 1)) for x in range(-2, 1004)] + [num(33.33), num(0.04)]
        if name in ("set_ems_export_power_limit", "set_battery_nominal_power", "set_battery_nominal_current"):
            res = res + [num(rng.randrange(65536)) for _ in range(40)]
        return [(a,) for a in res if a[0]["k"] != "num" or abs(a[0]["m"]) < 2 ** 31]
    if name in SWITCH or name in SWITCH_I:
        return [(TRUE,), (FALSE,)]
    if name in FIXED or name in DESTRUCTIVE:
        return [()]
    if name in GRID_V:
        v = [num(round(x / 10, 1)) for x in ([0, 1, 2399, 2400, 2621, 4999, 5000, 5001, -1] + [rng.randrange(5000) for _ in range(60 if quick else 3000)])]
        return [(a,) for a in v + JUNK + [num(230.05), num(230.55), num(500.001), num(-0.05)]]
    if name in GRID_F:
        v = [num(round(x / 100, 2)) for x in ([3999, 4000, 4001, 4750, 5200, 6999, 7000, 7001, 0, -1] + [rng.randrange(4000, 7001) for _ in range(60 if quick else 3000)])]
        return [(a,) for a in v + JUNK + [num(50.005), num(39.999), num(70.001)]]
    if name in GRID_S:
        v = [num(round(x / 100, 2)) for x in ([0, 1, 28, 57, 58, 29, 65534, 65535, 65536, -1] + [rng.randrange(65536) for _ in range(60 if quick else 3000)])]
        return [(a,) for a in v + JUNK + [num(0.281), num(0.005), num(655.351)]]
    if name in SLOT_HALF or name in EXPORT[:2] or name in SMART[:2] or (name in EMS_SLOT and name.endswith(("_start", "_end"))):
        return [(j, rng.choice([time_(rng.choice(few)), NONE])) for j in idx] + [(num(rng.randrange(1, 4)), time_(v)) for v in few] + [(num(1), NONE)]
    if name in SLOT_WHOLE or name == "set_export_slot" or name == "set_smart_load_slot" or name in EMS_SLOT:
        return [(j, s) for j in idx for s in rng.sample(slots, 2) + [NONE]] + [(num(rng.randrange(1, 4)), s) for s in slots]
    if name in SLOT_RESET:
        return [(j,) for j in idx]
    if name in TARGETS:
        return [(j, a) for j in idx for a in (num(0), num(100), num(57), num(101), num(-1))] + [(num(rng.randrange(1, 4)), a) for a in ALL + FRACTIONS + JUNK + INTEGRAL]
    if name in ("set_pause_slot_start", "set_pause_slot_end"):
        return [(time_(v),) for v in few] + [(NONE,)]
    if name == "set_pause_slot" or name in OLD:
        return [(s,) for s in slots]
    if name in OLD_RESET:
        return [()]
    if name == "set_system_date_time":
        ds = [date(1999, 12, 31, 23, 59, 59), date(2000, 1, 1, 0, 0, 0), date(2024, 2, 29, 12, 30, 45), date(2099, 12, 31, 23, 59, 59), date(1970, 1, 1, 0, 0, 0)]
        for _ in range(30 if quick else 500):
            ds.append(date(rng.randrange(1980, 2120), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)))
        return [(d,) for d in ds]
    if name == "set_mode_storage":
        r = [()] + [(s,) for s in slots[:-1]]
        return r + [(rng.choice(slots[:-1]), rng.choice(slots), x) for x in (TRUE, FALSE) for _ in range(8)] + [(rng.choice(slots[:-1]), rng.choice(slots)) for _ in range(6)]
    raise KeyError(name)


def builders(rng, quick):
    """Every command through every way of reaching it."""
    traces = []

    def go(name, layout, how, confirms=(None,)):
        r = Recorder()
        for a in args_for(name, rng, quick):
            if how == "method" and name == "set_mode_storage" and not a:
                continue                # the method has no default slot
            for c in confirms:
                r.call(name, layout, a, c, how)
        traces.append({"ev": r.ev})

    for n in PLAIN + PLAIN_I + SWITCH + SWITCH_I + FIXED + EXPORT + EMS_SLOT + SMART + TARGETS + OLD + OLD_RESET + \
            ["set_pause_slot_start", "set_pause_slot_end", "set_pause_slot", "set_system_date_time", "set_mode_storage"]:
        go(n, "single", "function")
    for n in GRID_V + GRID_F + GRID_S + DESTRUCTIVE:
        go(n, "single", "function", (None, False, True))
    for layout in SLOTMAPS:
        for n in SLOT_HALF + SLOT_WHOLE + SLOT_RESET + OLD + OLD_RESET + ["set_mode_storage"]:
            go(n, layout, "mapped") if n != "set_mode_storage" else None
    for layout, names in (("single", ON_INVERTER), ("ext", ON_INVERTER), ("three", ON_THREE), ("ems", ON_EMS)):
        for n in names:
            go(n, layout, "method")
    # every minute of the day, every slot
    for layout in SLOTMAPS:
        r = Recorder()
        m = SLOTMAPS[layout]
        for v in HHMM if not quick else rng.sample(HHMM, 240):
            name = rng.choice(SLOT_HALF)
            n = len(m.charge_slots)
            r.call(name, layout, (num(rng.randrange(1, n + 1)), time_(v)), None, "mapped")
        traces.append({"ev": r.ev})
    return traces


def identified(rng, quick):
    """The objects a plant hands out, by what the plant said it is."""
    traces = []
    codes = [p * 256 + x for p in (0x20, 0x21, 0x22, 0x30, 0x32, 0x40, 0x41, 0x43, 0x50, 0x51, 0x60, 0x64, 0x70, 0x80, 0x81, 0x82, 0x83, 0x84) for x in (1, 0x42)]
    fws = [0, 99, 299, 300, 302, 303, 304, 399, 449, 612, 800, 899, 912, 999, 1000, 1302, 1922]
    for code in codes:
        r = Recorder()
        for fw in rng.sample(fws, 4) if quick and code >> 8 != 0x20 else fws:
            p = Plant()
            model = resolve_model(code, fw)
            p.capabilities = PlantCapabilities(device_type=model, arm_firmware_version=fw)
            p.register_caches[0x11] = cache_of({0: code, 21: fw})
            obj = p.ems if p.capabilities.is_ems else p.inverter
            r.objs["plant"] = obj
            if p.capabilities.is_ems:
                names, idx = ["set_ems_charge_slot", "set_ems_discharge_slot", "set_ems_export_slot"], (1, 3, 4)
            else:
                names, idx = SLOT_WHOLE + SLOT_RESET + SLOT_HALF, (1, 2, 3, 10, 11)
            for n in names:
                for j in rng.sample(idx, 3) if quick else idx:
                    a = (num(j),) if n in SLOT_RESET else (num(j), time_(rng.choice(HHMM))) if n in SLOT_HALF else (num(j), slot(rng.choice(HHMM), rng.choice(HHMM)))
                    r.call(n, "plant", a, plant=(code, fw))
            if not p.capabilities.is_ems:
                for n in ("set_enable_charge", "set_charge_target_enabled", "set_battery_soc_reserve", "set_mode_dynamic"):
                    r.call(n, "plant", rng.choice(args_for(n, rng, True)), plant=(code, fw))
        traces.append({"ev": r.ev})
    return traces


# ---------------------------------------------------------------- read back
def regs_of(layout):
    ems = [2040] + list(range(2044, 2072))
    pairs = [b + o for base in (246, 276) for b in range(base, base + 24, 3) for o in (0, 1)]
    common = [96, 311, 317, 318, 319, 320, 20, 27, 29, 50, 59, 111, 112, 114, 163, 166] + list(range(35, 41)) + pairs
    one = [110, 116, 313, 314, 94, 95, 31, 32, 56, 57, 44, 45]
    three = [1078, 1109, 1111, 1112, 1122, 1123] + list(range(1113, 1117)) + list(range(1118, 1122))
    return ems if layout == "ems" else common + (three if layout == "three" else one)


def fresh(layout, rng):
    d = {}
    for r in regs_of(layout):
        d[r] = rng.randrange(0, 60)
    slotty = [x for x in regs_of(layout) if x in (94, 95, 31, 32, 56, 57, 44, 45, 319, 320) or 246 <= x <= 298 or 1113 <= x <= 1121]
    if layout == "ems":
        slotty = [x for x in range(2044, 2071) if (x - 2044) % 3 != 2]
    for r in slotty:
        d[r] = rng.choice(HHMM)
    for r, hi in ((27, 2), (29, 4), (311, 3), (318, 4), (2040, 2), (36, 12), (37, 28), (38, 24)):
        if r in d:
            d[r] = rng.randrange(1, hi) if r in (36, 37) else rng.randrange(hi)
    for r in (20, 59, 96, 166, 317, 1112, 1122, 1123):
        if r in d:
            d[r] = rng.randrange(2)
    return d


def canon(v):
    if v is None:
        return []
    if isinstance(v, TimeSlot):
        return [v.start.hour * 100 + v.start.minute, v.end.hour * 100 + v.end.minute]
    if isinstance(v, datetime.datetime):
        return [v.year, v.month, v.day, v.hour, v.minute, v.second]
    if isinstance(v, bool):
        return [int(v)]
    try:
        return [int(v)] if int(v) == v else [-98]
    except (TypeError, ValueError):
        return [-97]


def settings(obj):
    return {f: getattr(obj, f) for f in type(obj).model_fields}


def effects(rng, quick):
    traces = []
    for layout, names in (("single", ON_INVERTER), ("ext", ON_INVERTER), ("three", ON_THREE), ("ems", ON_EMS)):
        ev = []
        for n in names:
            for a in args_for(n, rng, True) if not quick else rng.sample(args_for(n, rng, True), min(8, len(args_for(n, random.Random(1), True)))):
                d = fresh(layout, rng)
                before = inverter(layout, d)
                try:
                    reqs = getattr(before, n)(*[x[1] for x in a])
                except Exception:
                    continue
                after = dict(d)
                for q in reqs:
                    after[q.register] = int(q.value)
                now, was = settings(inverter(layout, after)), settings(before)
                moved = [f for f in now if canon(now[f]) != canon(was.get(f)) or repr(now[f]) != repr(was.get(f))]
                ev.append({"k": "effect", "name": n, "layout": layout, "w": [[q.register, int(q.value)] for q in reqs], "changed": moved,
                           "regs": [[r, v] for r, v in sorted(after.items()) if r > 21 or r in (20,)],
                           "read": [{"f": f, "v": canon(v)} for f, v in now.items() if f.startswith(("charge_", "discharge_", "export_", "enable_", "battery_", "force_",
                                    "ac_charge", "active_power_rate", "inverter_reboot", "system_time", "plant_status"))]})
        for j in range(0, len(ev), 60):
            traces.append({"ev": ev[j:j + 60]})
    return traces


# ---------------------------------------------------------------- entry points
def client_for(model, fw):
    c = Client("h", 8899, tx_message_wait=0.25, tx_jitter=0)
    if model != "none":
        c.plant.capabilities = PlantCapabilities(device_type=Model[model], arm_firmware_version=fw)
    return c


def entry_of(c, entry):
    return c.one_shot_command if entry == "normal" else c.installer_command


def intervals(xs):
    res = []
    for x in xs:
        if res and res[-1][1] == x - 1:
            res[-1][1] = x
        else:
            res.append([x, x])
    return res


def takes(f, reqs):
    try:
        wire.drive(f(reqs, dry_run=True))
        return True
    except Exception:
        return False


def sweep(chk):
    ev = []
    reqs = {inst: [WriteHoldingRegisterRequest(r, 1, installer=inst) for r in range(65536)] for inst in (False, True)}
    near = sorted(set(range(0, 640)) | set(range(990, 1180)) | set(range(2030, 2080)) | set(range(3995, 4005)) | set(range(4990, 5020))
                  | set(range(19990, 20060)) | {65535, 32768, 52429 % 65536})
    for model in MODELS:
        for fw in (449,) if chk.quick else (None, 0, 302, 303, 449):
            c = client_for(model, fw)
            for entry in ("normal", "installer"):
                f = entry_of(c, entry)
                for inst in (False, True):
                    whole = (not chk.quick) or model in ("none", "AC", "HYBRID_3PH", "EMS")
                    asked = range(65536) if whole else near
                    took = [r for r in asked if takes(f, [reqs[inst][r]])]
                    ev.append({"k": "sweep", "model": model, "fw": fw or -1, "entry": entry, "inst": inst, "asked": intervals(asked), "took": intervals(took)})
    for model in ("none", "ALL_IN_ONE", "AC_3PH", "EMS"):
        c = client_for(model, 449)
        for reg in (20, 313, 1109, 2071, 63, 20003, 5):
            for entry in ("normal", "installer"):
                for inst in (False, True):
                    asked = list(range(-4, 300)) + list(range(32760, 32775)) + list(range(65530, 65550)) + list(range(131070, 131075))
                    f = entry_of(c, entry)
                    took = [v for v in asked if takes(f, [WriteHoldingRegisterRequest(reg, v, installer=inst)])]
                    ev.append({"k": "values", "model": model, "fw": 449, "entry": entry, "inst": inst, "reg": reg, "asked": intervals(asked), "took": intervals(took)})
    return [{"ev": ev[j:j + 10]} for j in range(0, len(ev), 10)]


def commands_for(model, rng):
    """Real commands, fit for this plant or not."""
    layout = rng.choice(["single", "three", "ems", "ext"])
    name = rng.choice({"ems": ON_EMS, "three": ON_THREE}.get(layout, ON_INVERTER) + PLAIN_I + SWITCH_I + GRID_V)
    obj = inverter(layout)
    for _ in range(5):
        a = [x[1] for x in rng.choice(args_for(name, rng, True))]
        try:
            f = getattr(obj, name, None) or getattr(commands, name)
            return f(*a, **({"confirm": True} if name in GRID_V else {}))
        except Exception:
            continue
    return commands.set_enable_charge(True)


def live(seed, n):
    rng = random.Random(seed)
    ev = []

    async def go():
        with vt.Net() as net:
            sent = []

            def tx(link, data):
                for r in wire.parse_tx(data):
                    if r["k"] == "w":
                        sent.append([r["a"], r["b"]])
                        asyncio.get_running_loop().call_later(0.125, link.rx, wire.write_response(r["dev"], r["a"], r["b"]))
                    elif r["k"] in ("rh", "ri"):
                        asyncio.get_running_loop().call_later(0.125, link.rx, wire.read_response(r["dev"], 3 if r["k"] == "rh" else 4, r["a"], [0] * r["b"]))
                    else:
                        sent.append([-1, -1])

            net.on_tx = tx
            model = rng.choice(MODELS)
            c = client_for(model, rng.choice([None, 302, 449]))
            await c.connect()
            for _ in range(n):
                if rng.random() < 0.1:          # detection comes and goes
                    model = rng.choice(MODELS)
                    c.plant.capabilities = None if model == "none" else PlantCapabilities(device_type=Model[model], arm_firmware_version=rng.choice([None, 303]))
                entry, dry = rng.choice(["normal", "installer"]), rng.random() < 0.3
                f = entry_of(c, entry)
                p = rng.random()
                if p < 0.4:
                    reqs = commands_for(model, rng)
                else:
                    pool = [(r, i) for r in POOL for i in ((False, True) if entry == "installer" else (False,))]
                    rng.shuffle(pool)
                    good = [x for x in pool if takes(f, [WriteHoldingRegisterRequest(x[0], 1, installer=x[1])])]
                    seen, want = set(), rng.choice([1, 2, 3, 4, 5, 6, 10, 14])
                    reqs = []
                    for r, i in good:
                        if r not in seen and len(reqs) < want:
                            seen.add(r)
                            reqs.append(WriteHoldingRegisterRequest(r, rng.choice([0, 1, 100, 65535, rng.randrange(65536)]), installer=i))
                    if p < 0.75:                # spoil one
                        at = rng.randrange(len(reqs) + 1)
                        bad = rng.choice([lambda: WriteHoldingRegisterRequest(rng.choice([0, 5, 30, 33, 46, 4000, 60000, 65535, 70000, -5]), 1),
                                          lambda: WriteHoldingRegisterRequest(rng.choice(POOL), rng.choice([-1, 65536, 65537, 1 << 20])),
                                          lambda: WriteHoldingRegisterRequest(rng.choice(POOL), 1, installer=rng.random() < 0.5)])()
                        if bad.register not in seen:
                            reqs.insert(at, bad)
                        elif not takes(f, [bad]):       # the same register again, and this one is refused
                            reqs.insert(at, bad)
                    elif p < 0.82 and reqs:
                        q = rng.choice(reqs)
                        reqs.insert(rng.randrange(len(reqs) + 1), WriteHoldingRegisterRequest(q.register, rng.choice([-1, 65536, 1 << 20]), installer=q.installer))
                cmd = [{"reg": q.register, "val": int(q.value), "inst": q.installer} for q in reqs]
                sent.clear()
                batch = list(reqs)
                if rng.random() < 0.15:         # with a read among the writes
                    batch.insert(rng.randrange(len(batch) + 1), ReadHoldingRegistersRequest(base_register=0, register_count=60, device_address=0x11))
                try:
                    await f(batch, dry_run=dry)
                    raised = ""
                except Exception as e:
                    raised = type(e).__name__
                await asyncio.sleep(8)
                ev.append({"k": "batch", "model": model, "entry": entry, "dry": dry, "cmd": cmd, "raised": bool(raised), "error": raised, "sent": [list(x) for x in sent]})
            await c.close()

    vt.run(go)
    return {"ev": ev}


POOL = [20, 27, 31, 35, 59, 94, 96, 110, 111, 116, 163, 166, 246, 268, 276, 298, 1078, 1109, 1111, 1112, 1113, 1121, 1122, 1123, 2040, 2044, 2071, 311, 313,
        314, 317, 318, 320, 554, 63, 83, 101, 115, 162, 300, 308, 1016, 1063, 5003, 5004, 20000, 20003, 172, 104, 1005, 1108, 5010]

MCW = """SPECIFICATION Spec
CONSTANT MaxLen = {}
INVARIANTS AllOrNothing RefusedSilent DryIsSilent Exact TiersApart Conservative SameVerdict Tables
"""
MCC = """SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS RefusedWritesNothing Sane OncePerRegister RightTier ConfirmedOnly NeedsNumbers Others OneSlot SlotsApart SlotsPermitted
"""


def run(chk):
    rng = random.Random(chk.seed * 7368787 + 5)
    random.seed(chk.seed)
    if chk.pid == "W01":
        traces = sweep(chk)
        for _ in range(60 if chk.quick else 2500):
            traces.append(live(rng.randrange(1 << 30), 12))
        mc = lambda: chk.model_check("MC_Writes", MCW.format(2 if chk.quick else 3), workers=4, timeout=6000)
        chk.assumptions += ["execute() and send_request_and_await_response() are the transport below the two entry points, not entry points of their own"]
    else:
        traces = builders(rng, chk.quick) + effects(rng, chk.quick) + identified(rng, chk.quick)
        if not chk.quick:
            for k in range(6):
                traces += builders(random.Random(chk.seed * 31 + k), False) + effects(random.Random(chk.seed * 37 + k), False)
        mc = lambda: chk.model_check("MC_Commands", MCC, workers=4, timeout=6000)
        chk.assumptions += ["switches are given booleans, slot ends datetime.time or None: other types for them are not specified",
                            "whole-numbered floats for enumerated settings may be taken or refused"]
    chk.leg("driver", events=sum(len(t["ev"]) for t in traces))
    traces = [t for t in traces if t["ev"]]
    rej = chk.parallel(mc, lambda: chk.validate("TraceCommands", "SPECIFICATION Spec\n", traces, shards=8, timeout=6000))[1]
    chk.sample(traces[0]["ev"][0])
    chk.sample(traces[-1]["ev"][-1])
    for tid, info in rej:
        for d in info or [{"clause": [chk.pid + ":not-explained"], "i": 0, "want": "?"}]:
            for c in d["clause"]:
                pid, what = c.split(":", 1)
                if pid == chk.pid:
                    e = traces[tid]["ev"][d["i"] - 1]
                    brief = {k: e[k] for k in e if k not in ("regs", "read", "asked")}
                    chk.violation(f"{what}: {brief} expected {str(d['want'])[:200]}", replay={"clause": c, "want": d["want"], "event": e})
