"""Generates /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
C = "givenergy_modbus/client/client.py"
PL = "givenergy_modbus/model/plant.py"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FR = "givenergy_modbus/framer.py"
prop("F01", "Every well-formed frame is delivered once, in order, however it is chunked",
 "For any sequence of well-formed frames fed to the stream decoder, split into reads at any byte positions, the decoder delivers each frame's message exactly once, in order, with the same content, as soon as its last byte has been fed (the decoder may hold back a message only while fewer than 18 bytes are buffered). Register payloads that happen to contain the frame-start marker do not disturb this.",
 ["inputs", "schedules"], "all frame sequences x all chunkings of the byte stream (frames of every type and length, payloads containing the marker)",
 "Tests feed a handful of fixed frames with a few splits; the guarantee is over every chunking of every frame sequence.",
 [FR, "givenergy_modbus/pdu/base.py"], [("stream decoder", FR + ": Framer.decode")],
 [("receive buffer", "undelivered tail of the stream", FR + ": Framer._buffer")], ["messages yielded by Framer.decode for each fed chunk"])
prop("F02", "The decoder survives any garbage, resynchronises and never throws",
 "Feeding arbitrary bytes to the stream decoder never raises: every undecodable frame surfaces as an error value in the message stream. Bytes that precede a frame-start marker, and markers whose header fields are implausible (length over 300, unknown unit or function id), are discarded without losing any well-formed frame that follows. A false or corrupted header can hide at most the bytes its own plausible length (at most 306 bytes in all) claims; traffic after that is delivered again.",
 ["inputs", "fault_sequences"], "all byte streams mixing frames, truncated/corrupted frames, marker fragments and noise, under all chunkings",
 "Garbage and truncation can hit any byte of any frame at any chunk boundary; tests and the existing hypothesis suite sample a few shapes without an oracle for which frames must survive.",
 [FR, "givenergy_modbus/pdu/base.py"], [("resync and plausibility checks", FR + ": Framer.decode"), ("error wrapping", "givenergy_modbus/pdu/base.py: BasePDU.decode_bytes")],
 None, ["messages and errors yielded by Framer.decode"])
prop("F03", "Messages encode to the protocol's byte layout and decode back unchanged",
 "Every request or response message that is valid to send encodes to exactly the protocol's byte layout (header, length, serials, padding, addresses, registers, values and checksum), and decoding those bytes yields a message of the same kind with the same fields. A request or write whose parameters are out of range (read count outside 1..60, written value not a 16-bit unsigned integer, register not writable at the request's tier) is refused instead of encoded.",
 ["inputs"], "all message kinds x all field values (addresses, register ranges, register values, serials, error flags)",
 "The field space is far beyond enumerated fixtures; existing tests pin a few captured frames.",
 ["givenergy_modbus/pdu/base.py", "givenergy_modbus/pdu/transparent.py", "givenergy_modbus/pdu/read_registers.py", "givenergy_modbus/pdu/write_registers.py", "givenergy_modbus/codec.py"],
 [("encoder", "givenergy_modbus/pdu/base.py: BasePDU.encode"), ("decoder", "givenergy_modbus/pdu/base.py: BasePDU.decode_bytes"), ("checksum", "givenergy_modbus/codec.py: PayloadEncoder.crc")],
 None, ["bytes returned by encode(), fields of the decoded message"])
prop("F04", "A read response damaged in transit is never believed",
 "With default settings, a register-read response whose body no longer matches its checksum changes no register value, serial, freshness stamp or presence marker of the plant and does not complete the request waiting for it; it is counted once against the device it names (as long as it can still be recognised as a register-read response carrying the registers it announces). Error responses and responses that carry no registers likewise change no register state and never complete a request successfully.",
 ["inputs", "fault_sequences"], "all read responses x all corruptions of checksum-covered bytes x all prior plant states and pending requests",
 "Any corrupted bit of any response must be caught in any plant state; tests corrupt a couple of fixed frames.",
 ["givenergy_modbus/pdu/read_registers.py", PL, C], [("checksum verdict", "givenergy_modbus/pdu/read_registers.py: ReadRegistersResponse._verify_crc / crc_failed"), ("commit gate", PL + ": Plant.update"), ("completion gate", C + ": Client._task_network_consumer")],
 [("register caches", "per-device last-good registers", PL + ": Plant.register_caches")], ["plant register caches, stamps, counters; result of the awaiting request"])

prop("C01", "A request only ever completes with its own device's answer",
 "A request returns only a non-error, checksum-valid response of its own kind, device and register range that arrived after the request was issued, and by the time it returns the response's data has been offered to the plant. One received response completes at most one request. When a second request of identical shape is issued while the first awaits its response, the first is cancelled and the newer one receives the response. A write that has not been transmitted yet is never completed by the acknowledgement of a different value.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent requests, retries, cancellations, late/duplicate/unsolicited/foreign/error/corrupt responses",
 "The guarantee is about interleavings of many callers with late, duplicated and foreign responses; tests script single exchanges.",
 [C, "givenergy_modbus/pdu/transparent.py", "givenergy_modbus/pdu/read_registers.py", "givenergy_modbus/pdu/write_registers.py"],
 [("pending-request table", C + ": Client.expected_responses / send_request_and_await_response"), ("dispatch", C + ": Client._task_network_consumer"), ("shape key", "givenergy_modbus/pdu/base.py: shape_hash")],
 [("pending requests", "shape -> waiting caller", C + ": Client.expected_responses")], ["results of send_request_and_await_response; bytes on the wire"])
prop("C02", "Retry budget: at most 1+retries transmissions, exact timeout and accounting",
 "A request is transmitted at most 1+retries times, each retransmission only after the previous attempt got no usable answer for the full response timeout (or got an error answer) and after the retry delay; it fails with a timeout exactly when every attempt is exhausted (however many other requests it has to queue behind on a healthy link) and stops transmitting once answered. An attempt whose answer already arrived while its frame was still queued is not transmitted. Each retry consumed by a normal request increments that device's retry counter by one; presence probes never do.",
 ["schedules", "fault_sequences"], "all patterns of lost/late/error responses, concurrent load, timeouts, retry counts and delays",
 "Timing races between late responses, queueing and retries; tests check one or two scripted timeouts.",
 [C, PL], [("attempt loop", C + ": Client.send_request_and_await_response"), ("skip answered frames", C + ": Client._task_network_producer"), ("retry counter", PL + ": Plant.record_retry")],
 None, ["frames on the wire with times, call results, plant.retry_count"])
prop("C03", "Losing the connection fails every waiting and later request at once",
 "When the peer closes or resets the connection, a write fails, or a write stalls beyond the 10 s drain limit, the client reports itself disconnected and every request that is queued, being written, or awaiting a response fails immediately with the connection-lost error, as does every request attempted before the next successful connect. A connection loss is never turned into a plain timeout, a retry, or a reported result.",
 ["crash_points", "schedules", "fault_sequences"], "connection loss of every kind at every point of every interleaving of requests",
 "The loss can strike at any await point with any number of requests in any stage; tests inject it at a few.",
 [C], [("teardown", C + ": Client._abort_connection"), ("loss detection", C + ": _task_network_consumer / _task_network_producer"), ("fast-fail", C + ": send_request_and_await_response")],
 [("connected", "public liveness flag", C + ": Client.connected")], ["call results and their times; Client.connected"])
prop("C04", "Frames go out whole, in order, rate-limited; heartbeats are answered",
 "Requests are written to the connection as whole frames in the order they were queued, and consecutive frames are separated by at least the configured minimum gap (and never more than the gap plus jitter while frames are waiting, on a healthy link). Every heartbeat received on a live connection is answered with exactly one heartbeat response echoing its data-adapter type, without disturbing pending requests. Nothing else is ever written to the connection.",
 ["schedules", "inputs"], "all interleavings of concurrent senders and incoming traffic",
 "Ordering and spacing must hold for every interleaving of senders; tests look at one or two frames.",
 [C, "givenergy_modbus/pdu/heartbeat.py"], [("producer", C + ": Client._task_network_producer"), ("heartbeat reply", C + ": Client._task_network_consumer")],
 [("transmit queue", "frames awaiting transmission", C + ": Client.tx_queue")], ["frames on the wire with times"])
prop("C05", "Reconnecting starts clean and works from any prior state",
 "connect() succeeds from any prior state (never connected, connected, closed, connection lost, failed connect) and the resulting connection serves requests normally: nothing from an earlier connection - unsent frames, partial received bytes, pending requests or a lost-connection verdict - affects what is sent, received or returned on the new one. close() can be called at any time, any number of times, leaves the client disconnected with its socket closed, and is not reported as a connection loss.",
 ["histories", "crash_points", "fault_sequences"], "all histories of connect/close/loss/failed connect interleaved with requests in any stage",
 "The prior state ranges over all histories including half-sent and half-received frames; tests cover two or three.",
 [C], [("connect/close", C + ": Client.connect, Client.close"), ("receive buffer reset", C + ": Client.connect")], None,
 ["wire traffic and call results on the new connection, sockets closed"])

prop("D01", "A cold detect reports exactly the devices that are really there",
 "For a plant that answers for its devices, a cold detect returns the right inverter model and exactly the battery packs, battery stacks (those the battery management unit announces and that answer) and modules, meters and battery controller that answer with valid identities, and no others; silent addresses and devices that answer with blank or invalid identities are left out and marked absent. A lossy but eventually answering link (losses within the retry budget) yields the same result as a perfect one.",
 ["configurations", "fault_sequences"], "all plant topologies (model x populated addresses x validity of each device's identity) x all response losses within the retry budget",
 "Topologies are combinatorial (model x any subset of addresses x ghost devices x losses); tests pin a handful of captures.",
 [C, PL], [("discovery", C + ": Client._detect and helpers"), ("derivation", PL + ": _derive_capabilities")], [("capabilities", "detected topology", PL + ": Plant.capabilities")], ["PlantCapabilities returned by detect(), plant.block_present"])
prop("D02", "A hinted detect confirms the hint exactly or refuses it",
 "Given a prior topology, detect probes only what the prior lists (a prior that lists stacks but no modules may look for the modules those stacks report) and returns a topology only if it equals the prior in device type, addresses and module counts (firmware version excepted); otherwise it raises a topology-mismatch error carrying both topologies, leaves the plant without capabilities and the connection up.",
 ["configurations", "histories"], "all pairs of prior topology and actual plant",
 "The space is pairs of topologies; tests try a few single differences.",
 [C, PL], [("hinted discovery", C + ": Client._detect"), ("comparison", C + ": Client._detect")], None, ["detect(prior=...) result or exception, plant.capabilities, requests on the wire"])
prop("D03", "A failed detect or liveness probe never leaves a half-open or half-true state",
 "If the inverter does not answer, or the connection is lost at any point during detect while reads are still outstanding for the topology, detect raises, the connection is closed and no new topology is installed - a lost connection is never reported as absent devices. A liveness probe returns true, leaving the connection open, exactly when the inverter's answer to that very probe was accepted; otherwise it returns false with the connection closed, and it never raises for communication failures.",
 ["crash_points", "fault_sequences"], "connection loss / silence / garbage answers at every request of every detect or liveness probe, with any stale state beforehand",
 "Loss can strike at any of dozens of probes in any topology; tests inject it at two places.",
 [C], [("atomicity", C + ": Client.detect"), ("probe", C + ": Client._probe"), ("liveness", C + ": Client.probe_alive")], None, ["exception/result, client.connected, socket state, plant.capabilities"])
prop("D04", "Saved topology and saved registers reconstruct the same plant",
 "A detected topology survives serialisation to a plain dictionary (through JSON) and back unchanged, and rebuilding a plant offline from the registers a live detect collected derives the same topology as that detect did. Malformed or unknown-version serialised topologies are rejected rather than half-loaded.",
 ["configurations", "histories"], "all topologies (model x populated addresses x device validity)",
 "Equality must hold for every topology; tests compare a few captures.",
 [PL], [("serialisation", PL + ": PlantCapabilities.to_dict/from_dict"), ("offline derivation", PL + ": Plant.from_caches, _derive_capabilities")], None, ["PlantCapabilities equality"])

prop("P01", "A poll reports success, partial failure or total failure truthfully",
 "refresh and load_config return the plant only if every register read they issued was answered; if some reads failed they raise the partial-failure error carrying the plant and exactly the failed reads, and if all failed the total-failure error; cancellation propagates as cancellation. Data from the reads that were answered is in the plant in every case, and polling before a topology is known raises without sending anything.",
 ["fault_sequences", "configurations"], "all topologies x all subsets of reads failing in any manner (silence, error, corruption, connection loss, cancellation)",
 "Any subset of dozens of concurrent reads may fail in any way; tests fail one or all.",
 [C], [("outcome classification", C + ": Client._execute_reads")], None, ["return value / exception fields, plant registers"])
prop("P02", "A poll asks for exactly the blocks the topology calls for",
 "refresh and load_config request exactly the register blocks that the detected model, firmware and peripherals call for, each once and at the right device address; a refresh omits precisely the blocks marked absent and, when a maximum age is given, those whose last accepted data is no older than it. A direct-polled plant is never asked for a block its device class does not expose.",
 ["configurations", "histories"], "all topologies x all presence/freshness states x all maximum ages",
 "Topology x freshness state is combinatorial; tests check a few models.",
 [C, "givenergy_modbus/model/manifest.py"], [("refresh plan", C + ": _refresh_banks/_refresh_ranges"), ("config plan", C + ": Client.load_config"), ("range tables", "givenergy_modbus/model/manifest.py: LOAD_CONFIG_RANGES, REFRESH_IR_RANGES")], None, ["requests on the wire"])

WR = "givenergy_modbus/pdu/write_registers.py"
prop("W01", "No write reaches the wire unless the whole command is permitted for this plant",
 "A command transmits nothing unless every one of its writes targets a register permitted for the detected model at the command's tier with a valid 16-bit value; one forbidden or invalid write anywhere in the command means nothing at all is sent and the command raises. Installer-tier registers are writable only through the installer entry point with requests explicitly marked installer-tier, such requests are never accepted by the normal entry point, and before detection only the conservative single-phase set is permitted. A dry run gives the same verdict and sends nothing; an accepted command sends exactly its writes.",
 ["inputs", "configurations"], "all registers 0..65535 x values x tiers x models/firmware x positions within a command",
 "65536 registers x models x tiers x positions; tests sample a few registers per model.",
 [C, WR, "givenergy_modbus/model/manifest.py"], [("model gate", C + ": one_shot_command/installer_command"), ("register gate", WR + ": WRITE_SAFE_REGISTERS, INSTALLER_WRITE_REGISTERS"), ("model tables", "givenergy_modbus/model/manifest.py: write_safe_registers")], None, ["frames on the wire, exceptions"])
prop("W02", "Command builders write the intended registers and refuse out-of-range arguments",
 "Each control command (charge/discharge enables, limits, reserves, targets, slots, modes, clock, pause, export, EMS and three-phase variants) produces exactly the register writes that realise it on the given inverter type, and applying them to a device gives the requested setting while leaving other settings alone. Out-of-range, boolean-for-number or fractional arguments are refused before any write is produced, and grid- or data-destroying commands are refused unless explicitly confirmed.",
 ["inputs", "configurations"], "all commands x all argument values x all slot layouts",
 "Arguments and layouts are combinatorial; tests check selected values per command.",
 ["givenergy_modbus/client/commands.py", "givenergy_modbus/model/slot_map.py"], [("builders", "givenergy_modbus/client/commands.py: set_* / disable_* / enable_* / reset_* functions"), ("slot layouts", "givenergy_modbus/model/slot_map.py")], None, ["requests returned by the command builders"])
prop("W03", "An acknowledged write shows up in the plant's settings, at the inverter",
 "When a device acknowledges a write without error, the acknowledged value becomes the plant's held value of that setting register for the plant's inverter, whichever address the acknowledgement carried, and no other register of any device changes; a failed acknowledgement, or one for register 0, changes nothing.",
 ["histories", "inputs"], "all write acknowledgements x all plant states and topologies",
 "All registers/values/addresses over any state; tests check a couple.",
 [PL], [("echo commit", PL + ": Plant.update")], None, ["plant register caches"])

prop("M01", "A poll response either commits whole or leaves last-good data untouched",
 "An accepted register response sets exactly its registers of exactly its device to exactly its values; a refused one changes none. A full-size all-zero response never overwrites known non-zero data, and a block whose identity fields decode to an invalid serial never overwrites good data, while implausible-but-identifiable readings are still committed (they are only reported). Traffic that is not a register response never changes registers.",
 ["histories", "inputs"], "all sequences of responses (any device, block, content) from all plant states",
 "Histories of arbitrary blocks against arbitrary caches; tests apply one or two responses.",
 [PL], [("commit policy", PL + ": Plant._commit_bank"), ("dispatch", PL + ": Plant.update")], [("register caches", "last-good registers per device", PL + ": Plant.register_caches")], ["plant.register_caches before/after"])
prop("M02", "Battery packs: corrupt or unconfirmed readings are never served",
 "With nothing yet known of a battery pack, a full reading (60 registers from 60) becomes visible only if the full reading before it, at most five minutes earlier, agrees with it. While a served pack keeps being polled, a full reading that contradicts what is served - another serial, or two or more physically impossible jumps - is not served (barring the opt-in surge healing), a single impossible jump is served only when the next full reading repeats it, and a changed constant (cell count, firmware) only after a full heal run. An internally impossible reading (every cell at 0 V while firmware or remaining capacity is reported) or one with an invalid serial is never served; zeroed cell temperature sensors (two or more) are never adopted at cold start, through a partial read, after a long gap, or by a heal. A full reading is served whole or not at all.",
 ["histories", "fault_sequences"], "all sequences and timings of battery readings, good and corrupt, full and partial, on several packs",
 "The guard is a stateful filter whose behaviour depends on the whole history and timing; tests script a few sequences.",
 [PL, "givenergy_modbus/model/battery_splice.py"], [("guard", PL + ": Plant._splice_guard and helpers"), ("classification", "givenergy_modbus/model/battery_splice.py: classify_transition")],
 [("cold-start candidate", "unconfirmed first reading", PL), ("escrow", "held suspicious value", PL), ("streaks", "sustained disagreement", PL)], ["plant.register_caches, splice/cold-start counters"])
prop("M03", "Battery packs: genuine readings are always adopted in the end",
 "A pack of which nothing is known becomes visible at the second of two consecutive agreeing sane readings; a genuine step in one quantity is served when it is repeated; a changed pack constant is adopted after at least ten uninterrupted readings agreeing on it and spanning the configured heal time, and likewise (when enabled) a sustained smooth voltage or capacity surge; once a pack is served, after a silence of more than five minutes any sane reading is served at once. Packs never affect each other, and every reading the guard withholds or rejects is counted exactly once, in the cold-start, held or rejected counter of its own pack.",
 ["histories", "schedules"], "all histories of readings and gaps followed by sustained consistent readings",
 "Eventual adoption is a liveness guarantee over unbounded histories; tests check one path each.",
 [PL, "givenergy_modbus/model/battery_splice.py"], [("healing", PL + ": Plant._handle_scalar_immutable, _handle_reject_streak, _confirm_cold_start_baseline")], None, ["plant.register_caches, counters"])
prop("M04", "Freshness and presence say exactly what was accepted and when",
 "The reported update time of a block is the time of the last accepted response for exactly that block (never moved by refused, corrupt or foreign traffic, nor by write acknowledgements); ages and unchanged-content durations derive from it. A block is reported present after an accepted response, absent after being found absent, unknown otherwise; invalidating presence forgets the marker, the stamps and the block's registers so that stale data is never reported as present.",
 ["histories"], "all histories of responses, refusals, absences and invalidations over all blocks and clocks",
 "History-dependent bookkeeping across overlapping blocks; tests check short sequences.",
 [PL], [("stamping", PL + ": Plant.update"), ("queries", PL + ": block_age, register_age, block_present, last_updated_at, content_unchanged_seconds"), ("invalidation", PL + ": mark_absent, invalidate_presence")],
 [("stamps", "block -> time of last accepted response", PL + ": Plant.register_block_updated_at")], ["the query API"])
prop("M05", "Plant identity and device hierarchy are stable and well-formed",
 "The plant's inverter serial is taken only from the inverter's own addresses and never overwritten by other devices' traffic; the device tree always has exactly one root, every other device has a parent in the tree, no device appears twice, and it lists exactly the devices of the detected topology (All-in-One modules once they have been read) in the same order every time. Undetected plants yield an empty or minimal tree rather than an error.",
 ["histories", "configurations"], "all topologies x all traffic histories",
 "Topologies x traffic is combinatorial; tests check a few captures.",
 [PL, "givenergy_modbus/model/devices.py"], [("identity", PL + ": Plant.update, inverter serial"), ("hierarchy", PL + ": Plant.devices / topology walk")], None, ["plant.inverter_serial_number, plant.devices"])

RC = "givenergy_modbus/model/register_cache.py"
prop("R01", "A redacted plant or cache reveals no serial number and changes nothing else",
 "Redacting a plant or register cache yields a copy in which the unit digits of every recognisable serial (standard, EMS or byte-swapped form) in a serial-bearing header field or completely present serial register group of any device are zeroed; an unrecognisable header serial is blanked, a meter product identifier zeroed, an unrecognisable or partly missing register group left alone. All other registers and fields keep their values, the original is untouched and independent of the copy, and redacting twice equals redacting once.",
 ["inputs", "configurations"], "all caches and topologies with serials of any form in any serial-bearing registers",
 "Serial groups exist for every device class and overlap; tests check a few.",
 [RC, PL, "givenergy_modbus/model/register.py"], [("cache redaction", RC + ": RegisterCache.redact_serials"), ("plant redaction", PL + ": Plant.redact"), ("scheme", "givenergy_modbus/model/register.py: Converter.redact_serial")], None, ["registers and fields of the redacted copy"])
prop("R02", "Frame capture leaks no serial, loses no byte and never disturbs the session",
 "While a capture runs, the sink receives every byte sent or received, per direction in order, with the same length and frame boundaries; in every complete decodable frame the serial numbers (envelope and fully contained register groups) have their unit digits removed (an envelope serial in no recognisable form is blanked, the digits of LAN-config addresses and a meter product identifier are zeroed) and all other content except the recomputed checksum is unchanged, independent of how reads were chunked. Each connection is a stream of its own. A second concurrent capture is refused, a failing sink never affects requests, and after the capture ends or is cancelled the sink gets nothing more and a new capture can start.",
 ["inputs", "schedules", "fault_sequences"], "all byte streams and chunkings x capture start/stop/cancel points x sink failures",
 "Chunkings x frame contents x lifecycle interleavings; tests check a few frames.",
 [C], [("redactor", C + ": FrameRedactor"), ("lifecycle", C + ": Client.capture_frames, _emit_to_sink")], None, ["calls received by the sink, session results"])

prop("X01", "Register dumps round-trip losslessly",
 "Saving a register cache as JSON and loading it back reproduces it exactly, and writing any set of caches in the compact dump format and parsing it, also after lines were broken inside the hex, indented, commented or upper-cased, reproduces every register that has a value for every device; entries, rows or documents that are not valid are rejected or ignored without inventing registers or disturbing the valid ones.",
 ["inputs"], "all register caches (register kinds, addresses, values, gaps) and all device sets",
 "The cache space is unbounded; tests round-trip a few.",
 [RC], [("JSON", RC + ": RegisterCache.json/from_json"), ("compact", RC + ": to_compact/parse_compact")], None, ["equality of caches"])
prop("X02", "Decoded readings are right or absent, never an exception or nonsense",
 "Reading any attribute of any device model built from any register contents (16-bit values, complete or partial, any device type and firmware), or dumping the whole model, never raises and never changes the registers. An attribute is absent when any of its registers is missing, when its raw value is not a member of its enumeration (an enumeration with a declared fallback member reads as that fallback), when it is no real time or date, or when it falls outside its documented plausible range (unless all its raw registers are zero); otherwise it equals the register value under its documented registers, scaling, sign and text form. Derived attributes (import/export and charge/discharge splits, balances, energy routed by product, ratings and capacities, aliases, validity) equal their documented formula over the attributes they are made of and are absent when one of those is.",
 ["inputs"], "all device models x all register contents, complete or partial",
 "Register contents are unbounded and partial polls can leave any subset missing; tests decode a few captures.",
 ["givenergy_modbus/model/register.py", "givenergy_modbus/model/inverter.py", "givenergy_modbus/model/inverter_threephase.py", "givenergy_modbus/model/battery.py", "givenergy_modbus/model/hv_bcu.py", "givenergy_modbus/model/ems.py", "givenergy_modbus/model/gateway.py", "givenergy_modbus/model/meter.py"],
 [("decoder", "givenergy_modbus/model/register.py: RegisterGetter.get, RegisterDefinition, Converter"), ("derived attributes", "givenergy_modbus/model/inverter.py: SinglePhaseInverter computed fields")], None, ["model attributes, model_dump()"])

prop("M06", "Every accessor shows the right device, and the fleet shows every inverter once",
 "For any topology (or none) and any stored registers, reading the plant's accessors never raises and changes nothing stored. Each device model is built from the registers of its own address only: the inverter, controller or gateway from the inverter address (0x11 undetected), one battery per detected pack address in order (undetected: the run of valid packs from 0x32), one meter per detected meter address, also where an address has not answered yet (an empty placeholder); each stack's control unit at 0x70 + its offset with its modules at consecutive addresses from 0x50 continuing from stack to stack; All-in-One modules only once read. Remaining energy is the sum over the packs that tell, absent if none does. A plant without a controller lists exactly one inverter, owning all packs, stacks and modules; a controller's plant lists every inverter it reports and every inverter read directly once, matched by serial: reported only = blinded, both = merged (each fact taken from the direct reading when known, also when zero, else from the report), direct only = listed after the reported ones; a later direct reading of a serial replaces an earlier one, and sources that cannot be decoded are skipped. The serial index maps every known serial to its inverter.",
 ["inputs", "configurations"], "all topologies x stored registers x directly read inverters, matching the report or not",
 "Topologies x registers x sources is combinatorial; tests check a few captures.",
 [PL, "givenergy_modbus/model/devices.py"], [("accessors", PL + ": Plant.batteries, number_batteries, meters, hv_stacks, aio_battery_modules, ems, gateway, lv_bcu, remaining_battery_energy_wh"), ("fleet", PL + ": Plant.inverters, serial_index, add_direct_source"), ("facade", "givenergy_modbus/model/devices.py: Inverter")], None, ["the plant's accessors"])
MP = "givenergy_modbus/testing/mock_plant.py"
prop("T01", "The mock plant serves exactly what it was seeded with",
 "A mock plant answers, per connection and in order, however the request bytes are split or interleaved with noise: a register read wholly covered by the seed with a valid response holding exactly the seeded values, one not wholly covered with an error response (padding 0x12), a permitted register write with an acknowledgement of that register and value that changes nothing, and reads of addresses not in the seed, heartbeats and undecodable input with nothing; every answer carries the mock's inverter and adapter serials and is well-formed. Seeded from captures (lines '<time> rx <hex>' or 'rx: <hex>', any number of files, in time order, frames spanning lines; sent, unreadable and other lines ignored) it holds exactly what the library holds after receiving those frames, and a capture with no received frame is refused with ValueError; only where serials coincide within one kind of device (battery packs, modules, managed inverters) are that kind's serials made distinct, keeping all but the last two characters, and nothing else differs. A written-down seed is served as written, refused with ValueError if a value is no register word or (unless told not to verify) if a client reading it twice would not come to hold it. A sentinel overlay sets exactly the listed registers to address plus offset, without altering its base, and identification gives back the register and scale from two displayed sentinel values uniquely, and from one exactly the candidates consistent with it (to a thousandth).",
 ["inputs", "histories"], "all seeds, captures, conversations and sentinel readings",
 "Seeds and conversations are unbounded; tests replay a few captures.",
 [MP, "givenergy_modbus/testing/identify.py"], [("serving", MP + ": MockPlant._respond, _read"), ("seeding", MP + ": plant_from_capture, from_spec, _make_device_serials_distinct"), ("identification", "givenergy_modbus/testing/identify.py: identify, sentinel_devices")], None, ["bytes sent by the mock, MockPlant.devices, identify() results"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
