#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.jsonl from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))

T = "TLA+ specification model-checked with TLC; recorded runs of the real code validated against it (trace validation)"
CHECKS = {
    "P01": (T, "Poll.tla over Bank.tla: every order of answers, give-ups, loss and cancellation of a poll in small plants; recorded polls of the real client (any fate per block and attempt, lost links, cancellation, side-by-side polls) must report exactly the model's outcome, failures and data."),
    "P02": (T, "Topology.tla gives the blocks of every model, firmware and peripheral set (checked for overlap and exposure by TLC over all of them); every request of every recorded poll must be one the model calls for, with none left out."),
    "D01": (T, "Detect.tla: what a detection finds for every plant (what answers where, what each answer holds, a saved topology or none); TLC checks soundness, completeness and idempotence over all small plants; detections of the real client against simulated plants must record exactly the model's topology."),
    "D02": (T, "As D01: installed-topology rules (equal to a saved one, refused when not, nothing probed outside it) are invariants of Detect.tla; recorded re-detections must end as the model says, request by request."),
    "D03": (T, "As D01 with losses, give-ups and cancellations at every probe: the model says how a detection ends and that nothing is installed; recorded detections must end so."),
    "D04": (T, "Detect.tla's saved-form grammar and verdicts, checked for round trips by TLC; real saving, loading (including mangled documents) and offline derivation must give exactly the model's topology or refusal."),
    "M05": (T, "Devices.tla derives the whole device tree (roots, parents, identities, order, validity) from what is stored and the topology; TLC checks well-formedness, completeness, locality and stability of the tree in all small plants; trees of hand-filled and live plants must equal the model's row by row, and the plant serial is validated on every recorded update history (Bank.tla)."),
    "R01": (T, "Redact.tla: the serial forms, where serials live and what redaction leaves; TLC checks idempotence, hiding and locality over all overlapping groups; redactions of real caches and plants (any contents, overlapping and partial groups, headers, direct sources) must equal the model's register by register, twice over, with the original untouched and independent."),
    "R02": (T + "; TLC-generated lives replayed", "Redact.tla's stream pass and capture life: every chunking of a short stream with a capture starting, stopping and losing its connection anywhere (nothing lost, invented or revealed); captures on the real client (TLC-generated lives of captures, requests, traffic, drops and reconnects) must hand the sinks exactly the model's bytes, and every request must end as it does without a capture."),
    "X01": (T, "Dumps.tla: both dump grammars, written and read; TLC checks that small sets of caches survive every edit a pasted text suffers and that one lost piece loses rows without inventing any; real caches must be written byte for byte as the model writes them, and arbitrary documents and texts must load as the model reads them."),
    "X02": (T, "Decode.tla with the attribute table attributes.ndjson: what every attribute of every device model and every derived attribute reads for given registers; TLC checks absence, range, sign, monotony, locality and the balance identities over edge contents of every attribute and over products and signs; real models built from contents at every edge, with holes, must read exactly that, dump, and leave the registers alone."),
    "M06": (T, "Views.tla (on Decode and Topology): what every accessor of a plant shows, which address it reads, and how a controller's report and direct readings form the fleet; TLC checks locality (a change at one address shows only where that address is read), that everyone reported or read is listed once, precedence and the index over all small plants; the accessors of real plants with random topologies, registers and direct sources must show exactly that."),
    "T01": (T, "Mock.tla (on Wire, Stream and Bank): what a mock plant answers, what a capture or written-down seed amounts to, when serials are told apart, and which registers sentinel readings identify; TLC checks unique identification, that renaming all of a colliding group is needed and suffices, and that one frame only can say an answer; real mocks' conversations (split, pipelined, noisy, concurrent), seeds, refusals and identifications, and real clients polling a mock, are validated."),
    "W01": (T, "Writes.tla: permission tables per plant and tier and the validate-then-send machine, checked for all plants, tiers and short commands; the real entry points are swept over every register, tier and marking, over values around every bound, and in live commands whose transmitted frames must be exactly the model's."),
    "W02": (T, "Commands.tla gives every command's writes or refusal for every layout and argument, and how each register reads back; TLC checks tiers, confirmation, slot separation and non-interference; the real builders (module functions and the methods of every inverter class) are driven over all small integers, bounds, fractions, booleans, junk, times and slots, and must return exactly the model's writes."),
    "M02": (T + "; TLC-generated behaviours replayed", "Splice.tla: exhaustive over a reading pool and gaps to a bounded depth; the real guard is bound by validating every recorded reading history exactly (served words and counters)."),
    "M03": (T + "; TLC-generated behaviours replayed", "As M02; liveness is checked from every reachable model state by insisting on a genuine reading, and the real code must serve exactly when the model does."),
    "M01": (T + "; TLC-generated behaviours replayed", "Bank.tla: the register store is specified (coherent per-bank splice, invalid identity, corrupt shapes); every recorded update history is validated register by register."),
    "M04": (T + "; TLC-generated behaviours replayed", "Bank.tla: freshness stamps, ages and read budgets are part of the state; every recorded history is validated, including stamps."),
    "F04": (T + "; TLC-generated behaviours replayed", "Bank.tla with damaged, error and null responses as transitions that must leave the store unchanged; the real decoder and plant are driven with the corresponding bytes."),
    "W03": (T + "; TLC-generated behaviours replayed", "Bank.tla: write-echo transitions; every recorded history is validated."),
    "F01": (T + "; TLC-generated streams replayed", "Framer.tla is checked for every stream of a scaled-down pool under every chunking; the same definition at full scale (Stream.tla) must explain every recorded feed of the real framers, message by message."),
    "F02": (T + "; TLC-generated streams replayed", "As F01 with arbitrary garbage before and between frames: loss bounds and recovery are invariants of the model; the real framers are validated on streams with debris, false headers, truncation and bit flips."),
    "F03": (T + "; TLC-generated messages replayed", "Wire.tla defines the byte layout (incl. CRC) and sendability; TLC checks round trips and damage detection, recorded encodes and decodes of the real message classes must match byte for byte and field by field."),
    "C01": (T + "; TLC-generated schedules replayed", "Session.tla: every interleaving of a few requests, responses, retries and cancellations at unit time; random, scripted and TLC-generated sessions of the real client (virtual time, simulated TCP) must be explained event by event."),
    "C02": (T + "; TLC-generated schedules replayed", "As C01; budget, spacing and exhaustion are invariants of Session.tla, recorded transmissions, results and retry counters must occur exactly when the model says."),
    "C03": (T + "; TLC-generated schedules replayed", "As C01 with EOF, resets of every kind and stalls injected anywhere; every waiting request must end with the connection-lost error at that moment."),
    "C04": (T + "; TLC-generated schedules replayed", "As C01; the transmit log must equal the model's FIFO with the gap and jitter bounds to the microsecond, heartbeats answered in turn."),
    "C05": (T + "; TLC-generated schedules replayed", "As C01 with close, failed and successful connects anywhere; nothing of an earlier connection may show up on a later one."),
}
LEVEL = {}
FIXED = [
    ("M01", "3f29dbb", "a 60-register read of a battery's other registers (its holding registers, IR(0,60)) was judged as an all-zero page: refused while the pack was unknown, and it discarded the pack's pending first page and restarted its clock"),
    ("X02", "f44713d", "an inverter with a device type code of no known family raised on its battery energy, slot map and model_dump()"),
    ("M06", "7e57619", "a directly read inverter with a device type code of no known family made plant.inverters and serial_index raise"),
    ("C03", "9c50dc3", "a socket error during read terminated the consumer without failing waiting requests"),
    ("C03", "72c5abd", "a frame being drained when the connection was torn down was left to time out"),
    ("D03", "5c96c70", "a connection lost while probing was reported as absent devices"),
    ("C05", "f61a3c9", "bytes of a partial frame from the previous connection corrupted the first response on the new one"),
    ("M01", "a3ca0e9", "identity registers decoding to non-ASCII letters passed as a valid serial and overwrote good data"),
    ("M02", "c9de733", "a temp-zero corruption frame completing a constant-register heal run was served"),
    ("F04", "0c2e4d3", "a single flipped bit turned an input-register response into a write acknowledgement that was believed"),
    ("F03", "6257030", "a message carrying a non-ASCII serial did not re-encode to the bytes it was decoded from"),
    ("C05", "f377a6f", "close() raised, and reconnecting became impossible, when the connection had died with ETIMEDOUT or EHOSTUNREACH"),
    ("C03", "3e44fd3", "a failed reconnect cleared the connection-lost state: later requests hung instead of failing at once"),
    ("C03", "648b6c4", "requests queued behind a stalled write ended with a plain timeout"),
    ("C05", "c8194ee", "a request waiting out its retry delay retransmitted on the next connection"),
    ("C01", "fb290f2", "a request superseded during its retry delay retried and took the newer request's response"),
    ("C02", "a1298f4", "more than about 35 concurrent requests on a healthy link failed with a timeout without being transmitted"),
    ("C03", "198d3c2", "senders blocked on the full transmit queue ended with a plain timeout after a connection loss"),
    ("C05", "7ed782b", "senders blocked on the full queue, and retries during a slow reconnect, transmitted on the next connection"),
    ("C01", "ce89d96", "the acknowledgement of a superseded write completed the newer write, which was then never transmitted"),
    ("C04", "1a57fea", "a heartbeat arriving while the send queue was full stopped the reader: requests answered in time failed with timeouts"),
    ("W02", "e3976ac", "set_battery_pause_mode wrote any integer, also ones that are no pause mode"),
    ("W02", "df91e54", "set_export_power_rate(True) was taken as 1% and written"),
    ("W02", "d76b018", "set_battery_nominal_power/current returned a write for values that do not fit a register"),
    ("X01", "0a654fe", "RegisterCache.json() raised on every non-empty cache"),
    ("D04", "9a1f84f", "a saved topology with malformed lists or numbers was half-loaded instead of refused"),
    ("D01", "6029750", "a stack count beyond the address band made detect list the battery management unit as a stack, or fail"),
    ("M02", "fb7c9b4", "a temp-zero corruption frame was served over a baseline seeded only by short reads"),
    ("R02", "03dfecd", "a header the framer skips swallowed the frames behind it in a capture, so they were emitted with their serials"),
    ("R02", "e37451d", "a captured frame lost its trailing bytes or unit id, and a LAN-config frame its length or its non-serial adapter text kept"),
    ("R02", "1887570", "after a reconnect during a capture the first frames were glued to the old tail and emitted unredacted"),
    ("R02", "19a3c18", "captured meter product responses kept the meter's identifier"),
    ("R01", "8edd02f", "a redacted plant still listed the full serials of its direct-source inverters"),
    ("R01", "086c87a", "the byte-swapped serial AIO firmware keeps in HR(8-12) was left in redacted caches and captures"),
    ("R01", "93622e2", "updating a redacted copy changed the original's counters and guard state"),
    ("X01", "5fc20c2", "loading a JSON dump took registers from malformed keys (\"HR(12\" became HR(1)) and from documents that are no object"),
    ("X01", "6cc2413", "a compact dump row past the 16-bit register space invented registers that cannot exist"),
]
KNOWN = []
NA = {}


def main():
    checks = []
    for pid, (tech, note) in CHECKS.items():
        checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {pid}",
                       "technique": tech, "level": LEVEL.get(pid, "model_checking"), "level_note": note})
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    na = [{"property": p, "reason": NA.get(p, "check under construction")} for p in ids if p not in CHECKS]
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC. check.py <ID> is the single entry point; VERIF_TIER and VERIF_SEED are honoured. "
                    "No hooks in /repo: everything is observed at public boundaries on a virtual clock."}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
        for p, c, w in FIXED:
            f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "text": f"fixed: property={p} {c} {w}"}) + "\n")
        for k in KNOWN:
            f.write(json.dumps({"status": "known", **k}) + "\n")


main()
