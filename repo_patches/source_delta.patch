From 9c50dc3128be23671c93bc7990e2cbb4dbb6581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:43 +0000
Subject: [PATCH 01/37] fix: treat a socket error during read as connection
 loss

---
 givenergy_modbus/client/client.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 3281a7e..502d920 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1577,7 +1577,16 @@ class Client:
     async def _task_network_consumer(self):
         """Task for orchestrating incoming data."""
         while hasattr(self, "reader") and self.reader and not self.reader.at_eof():
-            frame = await self.reader.read(300)
+            try:
+                frame = await self.reader.read(300)
+            except OSError as e:
+                # The peer reset the socket (RST / keepalive timeout) instead of closing it
+                # cleanly: read() raises rather than returning b"". Same outcome as an EOF —
+                # without this the task would die silently and strand every in-flight request.
+                if not self._shutting_down:
+                    _logger.warning("network_consumer: socket error during read (%s) — connection lost", e)
+                    self._abort_connection(ConnectionLost(f"socket error during read — connection lost: {e}"))
+                return
             if self._capture_sink is not None and frame and self._capture_redactor_rx is not None:
                 self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))
             async for message in self.framer.decode(frame):
-- 
2.43.0


From 72c5abde83dbf6a386f315019f54aab9d7438708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:14 +0000
Subject: [PATCH 02/37] fix: fail the in-drain frame when the connection is
 torn down under the producer

---
 givenergy_modbus/client/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 502d920..1f6b6cc 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1665,6 +1665,18 @@ class Client:
                 if self._capture_sink is not None and self._capture_redactor_tx is not None:
                     self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))
                 await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)
+            except asyncio.CancelledError:
+                # Torn down (sibling noticed the drop, or close()) while this frame's drain was
+                # stalled. The frame is already dequeued, so the teardown's queue-drain can't
+                # reach it — settle its futures here or the sender waits out the stuck-producer
+                # timeout and reports the wrong error.
+                for fut in (frame_sent, response_future):
+                    if fut is not None and not fut.done():
+                        if self._connection_lost:
+                            fut.set_exception(ConnectionLost("connection lost while sending"))
+                        else:
+                            fut.cancel()
+                raise
             except TimeoutError:
                 _logger.warning(
                     "network_producer: writer drain stalled >%.0fs — treating connection as lost",
-- 
2.43.0


From 5c96c70d7dd823b475b35086c06356a19a17fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 03/37] fix: do not report devices absent when the connection
 drops mid-detect

---
 givenergy_modbus/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 1f6b6cc..9ebc783 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -628,7 +628,7 @@ class Client:
         )
 
     async def _probe(self, request: TransparentRequest, timeout: float, retries: int) -> bool:
-        """Send a request; return True on success, False on TimeoutError.
+        """Send a request; return True on success, False on TimeoutError (ConnectionLost propagates).
 
         Uses ``retry_delay=0`` so absent-device probes don't pay the silent-
         window-survival cost — detect() does many of these and most are
@@ -639,6 +639,8 @@ class Client:
                 request, timeout=timeout, retries=retries, retry_delay=0, warn_timeout=False
             )
             return True
+        except ConnectionLost:
+            raise  # a dead connection is not an absent device (#356)
         except TimeoutError:
             return False
 
-- 
2.43.0


From f61a3c93d318d73d87b2e08f6545746eb008e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:18 +0000
Subject: [PATCH 04/37] fix: start every connection with an empty receive
 buffer

---
 givenergy_modbus/client/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 9ebc783..0055fca 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -541,6 +541,9 @@ class Client:
             await self.close()
         self._shutting_down = False
         self._connection_lost = False
+        # A partial frame left over from the previous connection must not be glued onto the
+        # first bytes of the new one (it would swallow the first response).
+        self.framer = ClientFramer()
         try:
             connection = asyncio.open_connection(host=self.host, port=self.port, flags=socket.TCP_NODELAY)
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
-- 
2.43.0


From a3ca0e91a6b6936228f437ee1c1f290baf58cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 05/37] fix: accept only ASCII alphanumerics in a serial number

is_valid_serial() documents 'exactly 10 [A-Z0-9] chars' but str.isalnum() also
accepts Latin-1 letters and superscripts, so corrupt identity registers
(e.g. 0xC9C9...) passed the coherence gate and overwrote good data.
---
 givenergy_modbus/model/register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register.py b/givenergy_modbus/model/register.py
index b54082e..497e52d 100644
--- a/givenergy_modbus/model/register.py
+++ b/givenergy_modbus/model/register.py
@@ -358,7 +358,7 @@ def is_valid_serial(s: str | None) -> bool:
     inverter (AA0000A000) nor the EMS (EMSYYWWNNN) pattern — surfacing genuinely-unknown
     real-world variants without crying wolf on every EMS poll.
     """
-    if not (s and len(s) == 10 and s.isalnum() and s == s.upper()):
+    if not (s and len(s) == 10 and s.isascii() and s.isalnum() and s == s.upper()):
         return False
     if not (_SERIAL_PATTERN.fullmatch(s) or _EMS_SERIAL_PATTERN.fullmatch(s)):
         _logger.warning("serial number %r is valid but matches no known GivEnergy pattern", s)
-- 
2.43.0


From c9de733b35d00cacc2c8e3b5c9ecb9361837b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 06/37] fix: never heal a constant register with a temp-zero
 corruption frame

_splice_guard documents that the temp-zero cohort is held on every path (#294),
but the scalar-immutable heal adopted whichever frame completed the run, so one
corrupt frame arriving tenth became the served baseline and every healthy
reading after it was hard-rejected.
---
 givenergy_modbus/model/plant.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index b1545e7..3fa8d63 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1334,7 +1334,8 @@ class Plant(GivEnergyBaseModel):
         # A scalar disagreement isn't the sustained-step path, so any heal streak is interrupted.
         if scalar_immut:
             self._splice_reject_streak.pop(device_address, None)
-            return self._handle_scalar_immutable(device_address, scalar_immut, phys, now_ts)
+            cohort = is_corruption_cohort(new, incoming_present)
+            return self._handle_scalar_immutable(device_address, scalar_immut, phys, now_ts, cohort)
 
         # No scalar-immutable trip this poll: any in-progress scalar disagreement is interrupted, so
         # the backstop streak resets here — it requires an *uninterrupted* stable signature. Covers
@@ -1450,6 +1451,7 @@ class Plant(GivEnergyBaseModel):
         scalar_immut: list[tuple[int, str, int, int]],
         phys: list[tuple[int, str, int, int]],
         now_ts: datetime,
+        cohort: bool,
     ) -> bool:
         """Hold a scalar-immutable (IR97/IR98) disagreement; heal only after long insistence (#286).
 
@@ -1464,7 +1466,9 @@ class Plant(GivEnergyBaseModel):
         the SAME incoming signature has been insisted upon, uninterrupted, for at least
         ``SCALAR_IMMUT_HEAL_POLLS`` polls AND ``self.splice_heal_seconds`` seconds. A changing
         signature or a clean (baseline-matching) poll resets the streak, so corruption — which
-        reverts well inside the heal window — never self-heals into the cache.
+        reverts well inside the heal window — never self-heals into the cache. ``cohort`` marks a
+        temp-zero corruption frame, which is held even when it completes the run (#294); the next
+        healthy frame heals instead.
 
         Always a *recoverable hold* (INFO + ``splice_held_count``), never a WARNING reject. The hold
         deliberately does not re-stamp the block's ingestion time, so ``block_age`` grows and a
@@ -1477,7 +1481,7 @@ class Plant(GivEnergyBaseModel):
         if streak is not None and streak[0] == sig:
             started, count = streak[1], streak[2] + 1
             elapsed = (now_ts - started).total_seconds()
-            if count >= SCALAR_IMMUT_HEAL_POLLS and elapsed >= self.splice_heal_seconds:
+            if count >= SCALAR_IMMUT_HEAL_POLLS and elapsed >= self.splice_heal_seconds and not cohort:
                 self._splice_escrow.pop(device_address, None)
                 self._splice_immut_streak.pop(device_address, None)
                 _logger.info(
-- 
2.43.0


From fb7c9b42d6b7188f3173ad86f5e02293761bce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:43 +0000
Subject: [PATCH 07/37] fix: hold the temp-zero corruption cohort over a
 partially seeded baseline

A short read that commits before the first full bank leaves a baseline without
the cell-mass temperatures; the next full bank skips cold-start confirmation and
its zeroed sensors have nothing to be compared against, so a corrupt first bank
was adopted and every healthy one after it hard-rejected.
---
 givenergy_modbus/model/plant.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 3fa8d63..b7fd3dc 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1274,6 +1274,18 @@ class Plant(GivEnergyBaseModel):
             )
             return True
 
+        # A baseline seeded only by short reads may not hold the cell-mass temps yet. The transition
+        # below can't see the temp-zero cohort against registers it has no baseline for, so hold it
+        # here — adopting it would be as unrecoverable as at cold start (#289/#294).
+        if is_corruption_cohort(new, incoming_present - present):
+            self._bump(self.splice_reject_count, device_address)
+            _logger.warning(
+                "Rejected battery bank for device 0x%02x — temp-zero corruption cohort over a partial "
+                "baseline; keeping last-good. Please report if seen.",
+                device_address,
+            )
+            return False
+
         phys, immut = classify_transition(prev, new, present)
 
         # Split immutable trips by recoverability (#281): the serial block (IR110-114) genuinely
-- 
2.43.0


From 0c2e4d30fa35b2795ea4432b0d61d3812800cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 08/37] fix: refuse write acknowledgements with trailing bytes
 (damaged read responses)

---
 givenergy_modbus/pdu/write_registers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/pdu/write_registers.py b/givenergy_modbus/pdu/write_registers.py
index 946686b..6bfbc9a 100644
--- a/givenergy_modbus/pdu/write_registers.py
+++ b/givenergy_modbus/pdu/write_registers.py
@@ -2,7 +2,7 @@ import logging
 from abc import ABC
 
 from givenergy_modbus.codec import PayloadDecoder
-from givenergy_modbus.exceptions import InvalidPduState
+from givenergy_modbus.exceptions import InvalidFrame, InvalidPduState
 from givenergy_modbus.pdu.transparent import TransparentMessage, TransparentRequest, TransparentResponse
 
 _logger = logging.getLogger(__name__)
@@ -389,6 +389,13 @@ class WriteHoldingRegister(TransparentMessage, ABC):
         attrs["register"] = decoder.decode_16bit_uint()
         attrs["value"] = decoder.decode_16bit_uint()
         attrs["check"] = decoder.decode_16bit_uint()
+        if not attrs.get("error", False) and not decoder.decoding_complete:
+            # A write message ends with its check code. Trailing bytes mean it is something else — a
+            # register-read response whose function code was flipped to 6 in transit (0x04 → 0x06 is
+            # a single bit) would otherwise pass as the acknowledgement "HR(base) = count".
+            raise InvalidFrame(
+                f"Write message has {decoder.remaining_bytes} trailing bytes", decoder.remaining_payload
+            )
         return cls(**attrs)
 
     def _extra_shape_hash_keys(self) -> tuple:
-- 
2.43.0


From 6257030246f51cbae187f3085c8d1e12d4ea0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 09/37] fix: encode strings as latin1, the way they are decoded
 (non-ASCII serials did not round-trip)

---
 givenergy_modbus/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/codec.py b/givenergy_modbus/codec.py
index ef1a25f..3d41c67 100644
--- a/givenergy_modbus/codec.py
+++ b/givenergy_modbus/codec.py
@@ -124,5 +124,6 @@ class PayloadEncoder:
     def add_string(self, value: str, length: int):
         """Adds a string to the buffer."""
         fstring = self._byteorder + str(length) + "s"
-        pstring = f"{value[-length:]:*>{length}}".encode()
+        # latin1, as PayloadDecoder.decode_string: one byte per character, so any received string re-encodes verbatim
+        pstring = f"{value[-length:]:*>{length}}".encode("latin1", "replace")
         self._payload += struct.pack(fstring, pstring)
-- 
2.43.0


From f377a6f7e75988ab50f0491448b2b40ce29c62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 10/37] fix: complete close() however the connection died (a
 timed-out socket made reconnecting impossible)

---
 givenergy_modbus/client/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 0055fca..6322220 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -570,7 +570,10 @@ class Client:
             self.writer.close()
             try:
                 await self.writer.wait_closed()
-            except ConnectionResetError:
+            except OSError:
+                # The transport reports how the connection died (reset, keepalive timeout, no route
+                # to host…). It is gone either way; raising here would leave close() half done and
+                # make every later connect() — which closes leftovers first — fail too.
                 pass
             del self.writer
 
-- 
2.43.0


From 3e44fd3ea7cd24703dbd1a6184db133e4cddc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 11/37] fix: a failed reconnect must not clear the
 connection-lost state

---
 givenergy_modbus/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 6322220..c8ef90c 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -540,7 +540,6 @@ class Client:
         ):
             await self.close()
         self._shutting_down = False
-        self._connection_lost = False
         # A partial frame left over from the previous connection must not be glued onto the
         # first bytes of the new one (it would swallow the first response).
         self.framer = ClientFramer()
@@ -549,6 +548,9 @@ class Client:
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
         except OSError as e:
             raise CommunicationError(f"Error connecting to {self.host}:{self.port}") from e
+        # Only a connection that actually came up ends the lost state: after a failed reconnect
+        # requests must keep failing at once instead of queueing for a producer that isn't there.
+        self._connection_lost = False
         self.network_consumer_task = asyncio.create_task(self._task_network_consumer(), name="network_consumer")
         self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
         # asyncio.create_task(self._task_dump_queues_to_files(), name='dump_queues_to_files'),
-- 
2.43.0


From 648b6c4485013461c9147fe37f46d8aed71edcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 12/37] fix: report a stalled link as a lost connection, not as
 a stuck producer

---
 givenergy_modbus/client/client.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index c8ef90c..858cdcf 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -504,6 +504,7 @@ class Client:
         self.expected_responses = {}
         self._shutting_down = False
         self._connection_lost = False
+        self._draining = False  # the producer is waiting for the transport to take a frame
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
         # across reconnects — a marginal dongle drops repeatedly, so the burst must be tracked on
         # the long-lived Client, not per-connection.
@@ -1674,7 +1675,11 @@ class Client:
                 self.writer.write(message)
                 if self._capture_sink is not None and self._capture_redactor_tx is not None:
                     self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))
-                await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)
+                self._draining = True
+                try:
+                    await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)
+                finally:
+                    self._draining = False
             except asyncio.CancelledError:
                 # Torn down (sibling noticed the drop, or close()) while this frame's drain was
                 # stalled. The frame is already dequeued, so the teardown's queue-drain can't
@@ -1832,10 +1837,16 @@ class Client:
                 _discard(response_future)
                 raise
             except TimeoutError as exc:
+                _discard(response_future)
+                if self._draining:
+                    # Not wedged: this frame was queued behind one whose drain is stalling and ran
+                    # out of patience before that drain did. The link is dead — say so.
+                    lost = ConnectionLost("writer drain stalled — connection lost")
+                    self._abort_connection(lost)
+                    raise lost from exc
                 # Drain is bounded (#356), so reaching this means the producer is
                 # wedged somewhere unknown — a genuine bug. Tear down so the
                 # system recovers, and keep the honest 'stuck' signal.
-                _discard(response_future)
                 self._abort_connection(ConnectionLost("producer stuck — tearing down"))
                 raise TimeoutError("Producer task is stuck — frame not sent") from exc
             try:
-- 
2.43.0


From c8194ee116b5edf284d910fb468e5f9f72f9cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:26 +0000
Subject: [PATCH 13/37] fix: do not carry a pending retry over to a new
 connection

---
 givenergy_modbus/client/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 858cdcf..06f4fea 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1802,8 +1802,14 @@ class Client:
             if self.expected_responses.get(expected_shape_hash) is fut:
                 del self.expected_responses[expected_shape_hash]
 
+        connection = self.network_producer_task
         tries = 0
         while tries <= retries:
+            if tries and self.network_producer_task is not connection:
+                # Reconnected since the previous attempt (which ended in a timeout or was waiting out
+                # its retry delay): a retry must not spill onto the new connection, where it would
+                # also take over the registration of a new request of the same shape.
+                raise ConnectionLost("connection was replaced while awaiting a retry")
             response_future: Future[TransparentResponse] = asyncio.get_running_loop().create_future()
             self.expected_responses[expected_shape_hash] = response_future
             frame_sent = asyncio.get_running_loop().create_future()
-- 
2.43.0


From fb290f2ed0819a3870552c98e092823188912ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 14/37] fix: cancel a request superseded during its retry delay
 instead of letting it steal the newer one's response

---
 givenergy_modbus/client/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 06f4fea..f19f3c8 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1810,6 +1810,11 @@ class Client:
                 # its retry delay): a retry must not spill onto the new connection, where it would
                 # also take over the registration of a new request of the same shape.
                 raise ConnectionLost("connection was replaced while awaiting a retry")
+            if tries and self.expected_responses.get(expected_shape_hash, response_future) is not response_future:
+                # A newer same-shaped request was issued during our retry delay. It would have
+                # cancelled us had we been awaiting our response; retrying now would steal its
+                # response (or, for a write, undo its value).
+                raise asyncio.CancelledError("superseded by a newer request of the same shape")
             response_future: Future[TransparentResponse] = asyncio.get_running_loop().create_future()
             self.expected_responses[expected_shape_hash] = response_future
             frame_sent = asyncio.get_running_loop().create_future()
-- 
2.43.0


From a1298f41375c2652f96cb8c830575ca0002b55a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 15/37] fix: let a request wait its turn for room in the
 transmit queue (large batches timed out unsent on a healthy link)

---
 givenergy_modbus/client/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index f19f3c8..90780e6 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -505,6 +505,7 @@ class Client:
         self._shutting_down = False
         self._connection_lost = False
         self._draining = False  # the producer is waiting for the transport to take a frame
+        self._senders_blocked = 0  # senders waiting for room in tx_queue
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
         # across reconnects — a marginal dongle drops repeatedly, so the burst must be tracked on
         # the long-lived Client, not per-connection.
@@ -1818,11 +1819,18 @@ class Client:
             response_future: Future[TransparentResponse] = asyncio.get_running_loop().create_future()
             self.expected_responses[expected_shape_hash] = response_future
             frame_sent = asyncio.get_running_loop().create_future()
+            # Room appears as fast as frames go out, and senders are served in turn: allow for everyone
+            # ahead of us plus one slow drain, or a large batch of reads (a plant with many devices)
+            # fails on a perfectly healthy link just for having to queue.
+            self._senders_blocked += 1
+            put_timeout = _DRAIN_TIMEOUT + self._senders_blocked * (self.tx_message_wait + self.tx_jitter) * 1.5
             try:
-                await asyncio.wait_for(self.tx_queue.put((raw_frame, frame_sent, response_future)), timeout=5.0)
+                await asyncio.wait_for(self.tx_queue.put((raw_frame, frame_sent, response_future)), timeout=put_timeout)
             except TimeoutError as exc:
                 _discard(response_future)
                 raise TimeoutError("TX queue full — producer task has likely died") from exc
+            finally:
+                self._senders_blocked -= 1
             if self._connection_lost:
                 # Lost the race with _abort_connection's queue-drain: our frame was
                 # enqueued after the drain and will never be sent. _discard cancels the
-- 
2.43.0


From 198d3c290801bd0016a5a7d64c7aa45e593ec202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 16/37] fix: fail senders blocked on a full transmit queue when
 the connection is lost

---
 givenergy_modbus/client/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 90780e6..bed97ea 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1837,6 +1837,10 @@ class Client:
                 # response future, so a post-reconnect producer skips the stale frame
                 # (the queue-front skip-if-resolved check).
                 _discard(response_future)
+                # Nothing queued now will be sent: make room, so that the next sender blocked on
+                # the full queue gets here too instead of waiting out its timeout.
+                if not self.tx_queue.empty():
+                    self.tx_queue.get_nowait()
                 raise ConnectionLost("connection lost while enqueueing — reconnect before sending")
             # Safety-net wait for the producer to actually send this frame. Worst case the
             # frame sits behind a full queue, and the producer sleeps tx_message_wait + up to
-- 
2.43.0


From 7ed782b4ed70ba84c27dfe0b90d1ac26a8cf3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 17/37] fix: end requests of a closed connection instead of
 sending them on the next one

---
 givenergy_modbus/client/client.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index bed97ea..45ea715 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -506,6 +506,7 @@ class Client:
         self._connection_lost = False
         self._draining = False  # the producer is waiting for the transport to take a frame
         self._senders_blocked = 0  # senders waiting for room in tx_queue
+        self._generation = 0  # counts teardowns: tells a request that its connection is gone
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
         # across reconnects — a marginal dongle drops repeatedly, so the burst must be tracked on
         # the long-lived Client, not per-connection.
@@ -563,6 +564,7 @@ class Client:
         """Disconnect from the remote host and clean up tasks and queues."""
         self.connected = False
         self._shutting_down = True
+        self._generation += 1
         if self.tx_queue:
             while not self.tx_queue.empty():
                 _, frame_sent, _ = self.tx_queue.get_nowait()
@@ -1803,14 +1805,14 @@ class Client:
             if self.expected_responses.get(expected_shape_hash) is fut:
                 del self.expected_responses[expected_shape_hash]
 
-        connection = self.network_producer_task
+        generation = self._generation
         tries = 0
         while tries <= retries:
-            if tries and self.network_producer_task is not connection:
-                # Reconnected since the previous attempt (which ended in a timeout or was waiting out
-                # its retry delay): a retry must not spill onto the new connection, where it would
+            if self._generation != generation:
+                # Closed since the previous attempt (which ended in a timeout or was waiting out
+                # its retry delay): a retry must not spill onto the next connection, where it would
                 # also take over the registration of a new request of the same shape.
-                raise ConnectionLost("connection was replaced while awaiting a retry")
+                raise ConnectionLost("connection was closed while awaiting a retry")
             if tries and self.expected_responses.get(expected_shape_hash, response_future) is not response_future:
                 # A newer same-shaped request was issued during our retry delay. It would have
                 # cancelled us had we been awaiting our response; retrying now would steal its
@@ -1842,6 +1844,12 @@ class Client:
                 if not self.tx_queue.empty():
                     self.tx_queue.get_nowait()
                 raise ConnectionLost("connection lost while enqueueing — reconnect before sending")
+            if self._generation != generation:
+                # Closed while we were waiting for room: close() has already emptied the queue, so our
+                # frame would go out on the next connection. Cancelling its future makes a producer
+                # skip it.
+                _discard(response_future)
+                raise ConnectionLost("connection closed while enqueueing")
             # Safety-net wait for the producer to actually send this frame. Worst case the
             # frame sits behind a full queue, and the producer sleeps tx_message_wait + up to
             # tx_jitter (plus a drain) between sends — so scale the bound by the full queue
-- 
2.43.0


From ce89d9645b512a66c9667a1c7cb07dc7c8c284c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 18/37] fix: do not take the acknowledgement of a superseded
 write for the newer, still unsent one

---
 givenergy_modbus/client/client.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 45ea715..0317842 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -9,6 +9,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from datetime import UTC, datetime
 from typing import Literal
+from weakref import WeakKeyDictionary
 
 from givenergy_modbus.exceptions import (
     CommunicationError,
@@ -506,6 +507,8 @@ class Client:
         self._connection_lost = False
         self._draining = False  # the producer is waiting for the transport to take a frame
         self._senders_blocked = 0  # senders waiting for room in tx_queue
+        # Values of writes whose frame hasn't gone out yet, by response future.
+        self._unsent_writes: WeakKeyDictionary[Future, int] = WeakKeyDictionary()
         self._generation = 0  # counts teardowns: tells a request that its connection is gone
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
         # across reconnects — a marginal dongle drops repeatedly, so the burst must be tracked on
@@ -1633,6 +1636,15 @@ class Client:
                 if getattr(message, "crc_failed", False) and not getattr(message, "lenient_crc_commit", False):
                     continue
                 future = self.expected_responses.get(message.shape_hash(), None)
+                if (
+                    future in self._unsent_writes
+                    and not message.error
+                    and getattr(message, "value", None) != self._unsent_writes[future]
+                ):
+                    # Acknowledges an earlier write to the same register, superseded by one that is
+                    # still queued. Taking it for the newer write's answer would report that one as
+                    # done without ever sending it.
+                    continue
                 if future and not future.done():
                     future.set_result(message)
         if self._shutting_down:
@@ -1675,6 +1687,8 @@ class Client:
                     frame_sent.set_result(True)
                 continue
             try:
+                if response_future is not None:
+                    self._unsent_writes.pop(response_future, None)
                 self.writer.write(message)
                 if self._capture_sink is not None and self._capture_redactor_tx is not None:
                     self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))
@@ -1821,6 +1835,8 @@ class Client:
             response_future: Future[TransparentResponse] = asyncio.get_running_loop().create_future()
             self.expected_responses[expected_shape_hash] = response_future
             frame_sent = asyncio.get_running_loop().create_future()
+            if isinstance(request, WriteHoldingRegisterRequest):
+                self._unsent_writes[response_future] = request.value
             # Room appears as fast as frames go out, and senders are served in turn: allow for everyone
             # ahead of us plus one slow drain, or a large batch of reads (a plant with many devices)
             # fails on a perfectly healthy link just for having to queue.
-- 
2.43.0


From 1a57feae63d914cab6a1c9d642214e0a758e9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 19/37] fix: answering a heartbeat no longer blocks the reader
 when the send queue is full

---
 givenergy_modbus/client/client.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 0317842..bd5cf28 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -509,6 +509,7 @@ class Client:
         self._senders_blocked = 0  # senders waiting for room in tx_queue
         # Values of writes whose frame hasn't gone out yet, by response future.
         self._unsent_writes: WeakKeyDictionary[Future, int] = WeakKeyDictionary()
+        self._heartbeat_replies: set[Task] = set()  # heartbeat responses waiting for room in tx_queue
         self._generation = 0  # counts teardowns: tells a request that its connection is gone
         # Reader-EOF reconnect-churn coalescing state (#355-style, see _note_eof_drop). Persists
         # across reconnects — a marginal dongle drops repeatedly, so the burst must be tracked on
@@ -568,6 +569,8 @@ class Client:
         self.connected = False
         self._shutting_down = True
         self._generation += 1
+        for reply in self._heartbeat_replies:
+            reply.cancel()
         if self.tx_queue:
             while not self.tx_queue.empty():
                 _, frame_sent, _ = self.tx_queue.get_nowait()
@@ -622,6 +625,8 @@ class Client:
                 fut.set_exception(exc)
                 aborted += 1
         self.expected_responses = {}
+        for reply in self._heartbeat_replies:
+            reply.cancel()
         # Unblock senders awaiting frame-sent for still-queued frames.
         drained = 0
         while not self.tx_queue.empty():
@@ -1613,7 +1618,15 @@ class Client:
                     continue
                 if isinstance(message, HeartbeatRequest):
                     _logger.debug("Responding to HeartbeatRequest")
-                    await self.tx_queue.put((message.expected_response().encode(), None, None))
+                    reply = (message.expected_response().encode(), None, None)
+                    try:
+                        self.tx_queue.put_nowait(reply)
+                    except asyncio.QueueFull:
+                        # Waiting for room here would leave responses unread meanwhile, and requests
+                        # on a healthy link would time out.
+                        task = asyncio.create_task(self.tx_queue.put(reply), name="heartbeat_reply")
+                        self._heartbeat_replies.add(task)
+                        task.add_done_callback(self._heartbeat_replies.discard)
                     continue
                 if not isinstance(message, TransparentResponse):
                     _logger.warning(f"Received unexpected message type for a client: {message}")
-- 
2.43.0


From e3976ac3f0d8cbbe6ec57d5e8586883b1a5caf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 20/37] fix: refuse a battery pause mode that does not exist

set_battery_pause_mode() passed any integer through to HR318, so -3 or 7
produced a write. Check it against BatteryPauseMode first.
---
 givenergy_modbus/client/commands.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index 6ef68f0..b206e3a 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -534,6 +534,10 @@ def set_battery_discharge_limit_ac(val: int) -> list[TransparentRequest]:
 
 def set_battery_pause_mode(val: BatteryPauseMode) -> list[TransparentRequest]:
     """Set the battery pause mode."""
+    # Not BatteryPauseMode(val): the enum maps unknown values to DISABLED, which would silently
+    # turn a caller's mistake into a different command. bool is left to the PDU guard.
+    if val not in tuple(BatteryPauseMode):
+        raise ValueError(f"Invalid battery pause mode: {val}")
     return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_PAUSE_MODE, val)]
 
 
-- 
2.43.0


From df91e54110b6206422a648ec4b15e09b5ef6b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 21/37] fix: refuse a boolean as three-phase export power rate

set_export_power_rate(True) scaled the boolean to 10 and wrote a 1% cap;
the PDU's own guard only sees the scaled integer.
---
 givenergy_modbus/client/commands.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index b206e3a..05f0521 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -1032,6 +1032,8 @@ def set_export_power_rate(rate: float) -> list[WriteHoldingRegisterRequest]:
     installer app (EXPORT_LIMIT_POWER_SET), but the write itself hasn't been validated against a
     real three-phase unit yet — see #263. Use `export_power_rate` to read it back.
     """
+    if isinstance(rate, bool):  # True * 10 would slip past the PDU's bool guard as 10
+        raise ValueError("Export power rate must be a number, not bool")
     if not 0 <= rate <= 100:
         raise ValueError(f"Export power rate ({rate}) must be in [0-100]%")
     return [WriteHoldingRegisterRequest(RegisterMap.EXPORT_POWER_RATE, round(rate * 10), installer=True)]
-- 
2.43.0


From d76b0189660a19808f8933ad45fc7ac3468e9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 22/37] fix: refuse nominal battery power/current that do not
 fit a register

set_battery_nominal_power() and set_battery_nominal_current() document
'any uint16' but returned a request for values outside it.
---
 givenergy_modbus/client/commands.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index 05f0521..5afeac9 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -921,7 +921,10 @@ def set_battery_nominal_power(power: int) -> list[WriteHoldingRegisterRequest]:
 
     No explicit app range — accepts any uint16. Consult battery hardware spec.
     """
-    return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_NOMINAL_POWER, _as_int(power, "power"), installer=True)]
+    val = _as_int(power, "power")
+    if not 0 <= val <= 0xFFFF:
+        raise ValueError(f"Battery nominal power must be 0–65535, got {val}")
+    return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_NOMINAL_POWER, val, installer=True)]
 
 
 def set_battery_nominal_current(current: int) -> list[WriteHoldingRegisterRequest]:
@@ -930,6 +933,8 @@ def set_battery_nominal_current(current: int) -> list[WriteHoldingRegisterReques
     No explicit app range — accepts any uint16. Consult battery hardware spec.
     """
     val = _as_int(current, "current")
+    if not 0 <= val <= 0xFFFF:
+        raise ValueError(f"Battery nominal current must be 0–65535, got {val}")
     return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_NOMINAL_CURRENT, val, installer=True)]
 
 
-- 
2.43.0


From 0a654fe548e5d89196ad3c5799fcab0e90902966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 23/37] fix: RegisterCache.json() fails on every non-empty
 cache

---
 givenergy_modbus/model/register_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 9b7983b..20186f7 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -94,7 +94,7 @@ class RegisterCache(defaultdict[Register, int]):
             This emits **unredacted** serial-number registers (and any other raw values).
             For a share-safe export, redact first: ``cache.redact_serials().json()``.
         """  # noqa: D402,D202,E501
-        return json.dumps(self)
+        return json.dumps({f"{reg.reg_type}:{reg.index}": value for reg, value in self.items()})
 
     @classmethod
     def from_json(cls, data: str) -> "RegisterCache":
-- 
2.43.0


From 9a1f84ff77a23d80c515d79ecb264760e7a0257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 24/37] fix: a saved topology with malformed lists or numbers
 is refused, not half-loaded

---
 givenergy_modbus/model/plant.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index b7fd3dc..9e00af9 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -346,7 +346,21 @@ class PlantCapabilities(BaseModel):
         def _addr(v: Any) -> int:
             # Accept either hex strings (the v2.0.1+ canonical form) or raw ints
             # (the v2.0.0 legacy form, or hand-edited payloads).
-            return int(v, 0) if isinstance(v, str) else int(v)
+            return int(v, 0) if isinstance(v, str) else _int(v)
+
+        def _int(v: Any) -> int:
+            # A fraction or a boolean is not a whole number: refuse it rather than truncate it.
+            if isinstance(v, bool) or not isinstance(v, (int, str)):
+                raise ValueError(f"expected a whole number, got {v!r}")
+            return int(v)
+
+        def _list(v: Any) -> list[Any]:
+            # Iterating a string or mapping would half-load it as single characters or keys.
+            if v is None:
+                return []
+            if not isinstance(v, (list, tuple)):
+                raise ValueError(f"expected a list, got {v!r}")
+            return list(v)
 
         def _device_type(v: Any) -> Model:
             # v2.0.1+ persists the enum name (Model["HYBRID_GEN1"]); v2.0.0
@@ -362,20 +376,21 @@ class PlantCapabilities(BaseModel):
             except (KeyError, TypeError):
                 return Model(str(v))
 
-        # `.get(k) or []` (not `.get(k, [])`) so an explicit `null` in JSON for
-        # any of the optional list fields safely degrades to empty rather than
-        # raising TypeError on iteration.
+        # `_list(.get(k))` so an explicit `null` in JSON for any of the optional list
+        # fields safely degrades to empty rather than raising TypeError on iteration.
         return cls(
             device_type=_device_type(normalised["device_type"]),
             inverter_address=_addr(normalised["inverter_address"]),
-            meter_addresses=[_addr(a) for a in (normalised.get("meter_addresses") or [])],
-            lv_battery_addresses=[_addr(a) for a in (normalised.get("lv_battery_addresses") or [])],
+            meter_addresses=[_addr(a) for a in _list(normalised.get("meter_addresses"))],
+            lv_battery_addresses=[_addr(a) for a in _list(normalised.get("lv_battery_addresses"))],
             # Coerce bcu_stacks entries — hand-edited JSON / differently-serialised
             # payloads can put strings here, which would TypeError downstream
             # (`0x70 + offset` in detect()). Fail loud at parse time instead.
-            bcu_stacks=[(int(offset), int(modules)) for offset, modules in (normalised.get("bcu_stacks") or [])],
-            aio_battery_module_addresses=[_addr(a) for a in (normalised.get("aio_battery_module_addresses") or [])],
-            hv_bmu_addresses=[_addr(a) for a in (normalised.get("hv_bmu_addresses") or [])],
+            bcu_stacks=[
+                (_int(offset), _int(modules)) for offset, modules in map(_list, _list(normalised.get("bcu_stacks")))
+            ],
+            aio_battery_module_addresses=[_addr(a) for a in _list(normalised.get("aio_battery_module_addresses"))],
+            hv_bmu_addresses=[_addr(a) for a in _list(normalised.get("hv_bmu_addresses"))],
             lv_bcu_address=(
                 _addr(normalised["lv_bcu_address"]) if normalised.get("lv_bcu_address") is not None else None
             ),
-- 
2.43.0


From 6029750f962f2116fd474cfc6b4bb9eadba6484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 25/37] fix: a battery stack count beyond the stack address
 band is not probed past it

---
 givenergy_modbus/model/plant.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 9e00af9..5735143 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -528,6 +528,8 @@ def _walk_firmware(device_type: DeviceType, device: Any, plant: "Plant") -> str
 _AIO_MAX_MODULES = 4
 #: HV BMU per-module address band is 0x50–0x6F; 0x70 is the first BCU.
 _HV_BMU_BAND_END = 0x70
+#: HV BCU per-stack address band is 0x70–0x8F.
+_HV_BCU_BAND_END = 0x90
 #: Cold candidate ranges shared between _derive_capabilities (validate) and _strategise (policy).
 _COLD_METER_RANGE: range = range(0x01, 0x09)
 _COLD_LV_BATTERY_RANGE: range = range(0x32, 0x38)
@@ -554,8 +556,12 @@ def _bms_bcu_count(cache: RegisterCache | None) -> int:
 
     Shared between Client._detect_bcu_stacks (live, cold path) and _derive_hv_topology
     (offline-safe validate) so the IR(61) decode has one implementation (#293).
+
+    Clamped to the BCU address band: a count beyond it is not a real plant, and probing on
+    would reach other devices' addresses (0xA0 is the BMS itself) or none a frame can carry.
     """
-    return (cache.get(IR(61)) or 0) if cache is not None else 0
+    count = (cache.get(IR(61)) or 0) if cache is not None else 0
+    return min(count, _HV_BCU_BAND_END - 0x70)
 
 
 def _bcu_module_count(cache: RegisterCache | None) -> int:
-- 
2.43.0


From 03dfecde4ce012ce9debbb00685245317c0a8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 26/37] fix: the capture redactor skips the headers the framer
 skips

---
 givenergy_modbus/client/client.py | 42 ++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index bd5cf28..f553150 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -127,16 +127,17 @@ class FrameRedactor:
 
     def _process(self) -> bytes:
         out = b""
-        while self._buf:
+        # Same walk as Framer.decode(), guards included: a header the framer skips must not
+        # swallow the frames behind it here, or those would be emitted unredacted.
+        while len(self._buf) >= 18:  # shortest known message is 18b (heartbeat request)
             marker_pos = self._buf.find(_FRAME_MARKER)
             if marker_pos < 0:
                 # No frame marker in buffer — keep the last 3 bytes (a split marker
                 # could arrive next chunk) and emit the rest intact.
                 keep = len(_FRAME_MARKER) - 1
-                if len(self._buf) > keep:
-                    garbage, self._buf = self._buf[:-keep], self._buf[-keep:]
-                    _logger.debug("FrameRedactor: %db pre-marker garbage emitted intact", len(garbage))
-                    out += garbage
+                garbage, self._buf = self._buf[:-keep], self._buf[-keep:]
+                _logger.debug("FrameRedactor: %db pre-marker garbage emitted intact", len(garbage))
+                out += garbage
                 break
             if marker_pos > 0:
                 # Garbage before the marker — emit intact.
@@ -144,18 +145,31 @@ class FrameRedactor:
                 _logger.debug("FrameRedactor: %db inter-frame garbage emitted intact", len(garbage))
                 out += garbage
                 continue
-            # Marker is at position 0. Read the length field to know frame size.
-            if len(self._buf) < 6:
-                break  # not enough bytes for the MBAP length field yet
-            hdr_len = int.from_bytes(self._buf[4:6], "big")
-            if hdr_len > 300:
+            # Marker is at position 0. A second one before a frame could have ended means the
+            # current frame was cut short.
+            next_pos = self._buf.find(_FRAME_MARKER, 1)
+            if 0 < next_pos < 18:
+                garbage, self._buf = self._buf[:next_pos], self._buf[next_pos:]
+                _logger.debug("FrameRedactor: truncated header, %db emitted intact", len(garbage))
+                out += garbage
+                continue
+            # Read the length field to know frame size.
+            hdr_len, u_id, f_id = int.from_bytes(self._buf[4:6], "big"), self._buf[6], self._buf[7]
+            if hdr_len > 300 or u_id not in (0, 1) or f_id not in (1, 2):
                 # A real frame's MBAP length never exceeds ~300 (60-register cap). A larger
-                # value means this marker is a false positive (random bytes that happen to
-                # match) — emit it intact as garbage and resume scanning, rather than buffering
-                # up to ~64 KB for a frame that will never complete. Mirrors framer.py's guard.
+                # value (or an impossible unit/function id) means this marker is a false positive
+                # (random bytes that happen to match) — emit it intact as garbage and resume
+                # scanning, rather than buffering up to ~64 KB for a frame that will never
+                # complete. Mirrors framer.py's guard.
                 skip = len(_FRAME_MARKER)
                 garbage, self._buf = self._buf[:skip], self._buf[skip:]
-                _logger.debug("FrameRedactor: false marker (len=0x%04x), %db emitted intact", hdr_len, len(garbage))
+                _logger.warning(
+                    "FrameRedactor: false marker (len=0x%04x, u_id=0x%02x, f_id=0x%02x), %db emitted intact",
+                    hdr_len,
+                    u_id,
+                    f_id,
+                    len(garbage),
+                )
                 out += garbage
                 continue
             frame_len = 6 + hdr_len
-- 
2.43.0


From e37451da2c1b553e693a8d0b8c7f71786a7fbc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 27/37] fix: redacting a captured frame changes nothing but its
 serials and checksum

---
 givenergy_modbus/client/client.py  | 7 +++++--
 givenergy_modbus/pdu/lan_config.py | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index f553150..d9dcbc5 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -199,7 +199,7 @@ class FrameRedactor:
 
         # LanConfigBroadcast: delegate to its own redact() — handles serial + IPs
         if isinstance(pdu, LanConfigBroadcast):
-            return pdu.redact().encode()
+            pdu = pdu.redact()
 
         # Redact envelope serials (present on all Transparent PDUs). FAIL-CLOSED
         # (redact_serial_strict): an envelope value that doesn't parse as a GE serial is
@@ -243,7 +243,10 @@ class FrameRedactor:
                 for i in range(g_count):
                     pdu.register_values[offset + i] = int.from_bytes(redacted_bytes[i * 2 : i * 2 + 2], "big")
 
-        return pdu.encode()
+        # Everything the decoder doesn't interpret stays as it was on the wire: the length and unit
+        # id of the header, and any bytes behind the PDU that the length covers.
+        redacted_frame = pdu.encode()
+        return frame[:7] + redacted_frame[7:] + frame[len(redacted_frame) :]
 
 
 @dataclass(frozen=True)
diff --git a/givenergy_modbus/pdu/lan_config.py b/givenergy_modbus/pdu/lan_config.py
index ab8b9fc..198341c 100644
--- a/givenergy_modbus/pdu/lan_config.py
+++ b/givenergy_modbus/pdu/lan_config.py
@@ -50,7 +50,7 @@ class LanConfigBroadcast(ClientIncomingMessage):
     def is_lan_config(cls, remaining_after_serial: bytes) -> bool:
         """Return True if the remaining decoder bytes look like a LAN config broadcast."""
         return (
-            len(remaining_after_serial) >= 8
+            len(remaining_after_serial) >= 10  # padding + comma + check
             # The 6 bytes preceding the null+comma are the zero padding of a real broadcast;
             # requiring them avoids a crafted padding field false-positiving and dropping a
             # valid transparent response (L6).
@@ -140,7 +140,8 @@ class LanConfigBroadcast(ClientIncomingMessage):
         redacted_ip = _zero_ip(self.ip)
         redacted_netmask = _zero_ip(self.netmask)
         redacted_gateway = _zero_ip(self.gateway)
-        new_csv_raw = f",{redacted_ip},{redacted_netmask},{redacted_gateway}\r\n\r\n".encode("latin1")
+        # In place, so that the frame keeps its length however the body is laid out.
+        new_csv_raw = _DIGIT_RE.sub(b"0", self._csv_raw)
         return LanConfigBroadcast(
             data_adapter_serial_number=redacted_serial,
             ip=redacted_ip,
-- 
2.43.0


From 18875706ac38c9ec1309baec9dd8856ee173bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 28/37] fix: a capture does not glue a reconnect onto the old
 connection's tail

---
 givenergy_modbus/client/client.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index d9dcbc5..1c3ef26 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -567,6 +567,9 @@ class Client:
         # A partial frame left over from the previous connection must not be glued onto the
         # first bytes of the new one (it would swallow the first response).
         self.framer = ClientFramer()
+        # Likewise for a running capture: glued onto that tail, the first frames would be emitted
+        # undecoded and thus unredacted.
+        self._flush_capture()
         try:
             connection = asyncio.open_connection(host=self.host, port=self.port, flags=socket.TCP_NODELAY)
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
@@ -1543,6 +1546,12 @@ class Client:
         except Exception:  # noqa: BLE001 — a capture sink must never break the client
             _logger.exception("capture sink raised on %s frame; dropping it and continuing", direction)
 
+    def _flush_capture(self) -> None:
+        """Hand whatever an active capture still holds back to its sink."""
+        for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):
+            if redactor is not None:
+                self._emit_to_sink(direction, redactor.flush())  # type: ignore[arg-type]
+
     async def capture_frames(
         self,
         sink: Callable[[Direction, bytes], None],
@@ -1576,9 +1585,7 @@ class Client:
             await asyncio.sleep(duration)
         finally:
             # Flush each direction's held tail so the final bytes aren't lost.
-            for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):
-                if redactor is not None:
-                    self._emit_to_sink(direction, redactor.flush())  # type: ignore[arg-type]
+            self._flush_capture()
             self._capture_sink = None
             self._capture_redactor_rx = None
             self._capture_redactor_tx = None
-- 
2.43.0


From 19a3c18c0c357018ba4e1679b35b7342734f8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 29/37] fix: a capture blanks the meter product identifier

---
 givenergy_modbus/client/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 1c3ef26..2597c9e 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -219,13 +219,19 @@ class FrameRedactor:
         # A serial is stored across 5 consecutive registers; decode the group as a
         # string, apply redact_serial, and re-encode back into register values.
         if isinstance(pdu, ReadRegistersResponse) and not pdu.error:
-            reg_type = "HR" if pdu.transparent_function_code == 3 else "IR"
+            reg_type = {3: "HR", 4: "IR"}.get(pdu.transparent_function_code, "MR")
             win_base = pdu.base_register
             win_end = win_base + len(pdu.register_values)  # safer than register_count
             for g_type, g_base, g_count in _get_serial_groups():
                 if g_type != reg_type:
                     continue
                 g_end = g_base + g_count
+                if reg_type == "MR":
+                    # The meter product identifier matches no serial pattern: blank it, as
+                    # RegisterCache.redact_serials() does.
+                    for reg in range(max(g_base, win_base), min(g_end, win_end)):
+                        pdu.register_values[reg - win_base] = 0
+                    continue
                 if g_base < win_base or g_end > win_end:
                     continue  # group not fully within this response window
                 offset = g_base - win_base
-- 
2.43.0


From 8edd02fa3df6315f4392d705cdb39d73ca6d8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 30/37] fix: a redacted plant does not keep the serials of its
 direct sources

---
 givenergy_modbus/model/plant.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 5735143..9c0a921 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -950,7 +950,7 @@ class Plant(GivEnergyBaseModel):
         # Fail closed: redact_serial_strict blanks any unrecognised identifier rather than leaking
         # it verbatim (redact_serial is fail-open). register_block_updated_at is copied so the
         # redacted snapshot stays independent of later updates to the original.
-        return self.model_copy(
+        redacted = self.model_copy(
             update={
                 "register_caches": {addr: cache.redact_serials() for addr, cache in self.register_caches.items()},
                 "inverter_serial_number": Converter.redact_serial_strict(self.inverter_serial_number),
@@ -959,6 +959,9 @@ class Plant(GivEnergyBaseModel):
                 "register_block_present": dict(self.register_block_present),
             }
         )
+        # The private state came along as is: direct sources hold serials of their own.
+        redacted._direct_source_caches = [cache.redact_serials() for cache in self._direct_source_caches]
+        return redacted
 
     @staticmethod
     def _bump(counter: dict[int, int], device_address: int) -> None:
-- 
2.43.0


From 086c87a34d6e8ff68865f2d86baf4472a64c9847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 31/37] fix: a byte-swapped unit serial is redacted too

---
 givenergy_modbus/model/register.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register.py b/givenergy_modbus/model/register.py
index 497e52d..7fec586 100644
--- a/givenergy_modbus/model/register.py
+++ b/givenergy_modbus/model/register.py
@@ -107,6 +107,10 @@ class Converter:
         m = re.fullmatch(r"([A-Z]{3})(\d{4})\d{3}", s)
         if m:
             return f"{m.group(1)}{m.group(2)}000"
+        # The standard form with each register's bytes swapped, as AIO firmware keeps it in HR(8-12).
+        m = _SWAPPED_SERIAL_PATTERN.fullmatch(s)
+        if m:
+            return f"{m.group(1)}0{m.group(2)}00"
         return s
 
     @staticmethod
@@ -124,7 +128,7 @@ class Converter:
         redacted = Converter.redact_serial(s)
         if redacted and redacted != s:
             return redacted  # recognised and not yet redacted → date-preserving redaction
-        if _SERIAL_PATTERN.fullmatch(s) or _EMS_SERIAL_PATTERN.fullmatch(s):
+        if any(p.fullmatch(s) for p in (_SERIAL_PATTERN, _EMS_SERIAL_PATTERN, _SWAPPED_SERIAL_PATTERN)):
             return s  # recognised but already redacted → unchanged
         return ""  # unrecognised identifier in a serial location → fail closed
 
@@ -349,6 +353,8 @@ _SERIAL_PATTERN = re.compile(r"[A-Z]{2}\d{4}[A-Z]\d{3}")
 # EMS controllers use a 3-letter prefix followed by 7 digits (e.g. EMS2522018) and carry
 # no middle letter — a legitimate format that just isn't the inverter AA0000A000 shape.
 _EMS_SERIAL_PATTERN = re.compile(r"[A-Z]{3}\d{7}")
+# The standard form with the two bytes of each register swapped.
+_SWAPPED_SERIAL_PATTERN = re.compile(r"([A-Z]{2}\d{4})\d([A-Z])\d{2}")
 
 
 def is_valid_serial(s: str | None) -> bool:
-- 
2.43.0


From 93622e26e8e3387248d4f5a0115e7a8112785d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 32/37] fix: a redacted plant shares its counters and
 splice-guard state with the original

---
 givenergy_modbus/model/plant.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 9c0a921..4d174f7 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -957,10 +957,24 @@ class Plant(GivEnergyBaseModel):
                 "data_adapter_serial_number": Converter.redact_serial_strict(self.data_adapter_serial_number),
                 "register_block_updated_at": dict(self.register_block_updated_at),
                 "register_block_present": dict(self.register_block_present),
+                "crc_failure_count": dict(self.crc_failure_count),
+                "splice_reject_count": dict(self.splice_reject_count),
+                "splice_held_count": dict(self.splice_held_count),
+                "retry_count": dict(self.retry_count),
+                "cold_start_held_count": dict(self.cold_start_held_count),
             }
         )
         # The private state came along as is: direct sources hold serials of their own.
         redacted._direct_source_caches = [cache.redact_serials() for cache in self._direct_source_caches]
+        # The splice guard's state is shared until copied; the raw banks it holds back carry the
+        # battery serial, so those don't go along at all.
+        redacted._block_unchanged_since = dict(self._block_unchanged_since)
+        redacted._splice_escrow = dict(self._splice_escrow)
+        redacted._splice_last_seen = dict(self._splice_last_seen)
+        redacted._splice_immut_streak = dict(self._splice_immut_streak)
+        redacted._splice_reject_burst = dict(self._splice_reject_burst)
+        redacted._splice_pending_baseline = {}
+        redacted._splice_reject_streak = {}
         return redacted
 
     @staticmethod
-- 
2.43.0


From 5fc20c2e689aac276ecb49222767a026f81898b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 33/37] fix: loading a register cache invents no registers from
 malformed keys or documents

---
 givenergy_modbus/model/register_cache.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 20186f7..3a3ad96 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -12,6 +12,9 @@ if TYPE_CHECKING:
 
 _logger = logging.getLogger(__name__)
 
+# Register keys of RegisterCache.from_json(): "HR:0", or the older "HR(0)".
+_JSON_KEY_RE = re.compile(r"([^(:]+)(?:\(([0-9]+)\)|:([0-9]+))")
+
 _SERIAL_GROUPS: "list[tuple[str, int, int]] | None" = None
 
 # BMU serials are not in any REGISTER_LUT (Bmu.from_register_cache decodes them
@@ -105,16 +108,15 @@ class RegisterCache(defaultdict[Register, int]):
             lookup = {"HR": HR, "IR": IR, "MR": MR}
             ret = {}
             for k, v in object_dict.items():
-                if k.find("(") > 0:
-                    reg, idx = k.split("(", maxsplit=1)
-                    idx = idx[:-1]
-                elif k.find(":") > 0:
-                    reg, idx = k.split(":", maxsplit=1)
-                else:
+                key = _JSON_KEY_RE.fullmatch(k)
+                if key is None:
                     _logger.warning("Skipping unrecognised register key %r", k)
                     continue
+                reg, idx = key.group(1), int(key.group(2) or key.group(3))
                 try:
-                    register = lookup[reg](int(idx))
+                    if idx > 0xFFFF:
+                        raise ValueError(f"register address {idx} is not an unsigned 16-bit int")
+                    register = lookup[reg](idx)
                     if v is None:
                         # None is the codebase's legitimate "unset" sentinel (e.g. a missing
                         # slot endpoint); preserve it so it round-trips through JSON.
@@ -133,7 +135,7 @@ class RegisterCache(defaultdict[Register, int]):
                     ret[register] = value
                 except (KeyError, ValueError, TypeError, OverflowError):
                     # KeyError: unknown register prefix (e.g. a future namespace we don't know
-                    # about yet). ValueError: idx wasn't an int, or the value wasn't a coercible
+                    # about yet). ValueError: idx was out of range, or the value wasn't a coercible
                     # in-range integer (a string / bool / fractional / out-of-range value in a
                     # tampered cache JSON). TypeError: value was a non-scalar (list/dict).
                     # OverflowError: int(float("inf")) from a non-standard JSON Infinity. Skip the
@@ -142,7 +144,10 @@ class RegisterCache(defaultdict[Register, int]):
                     continue
             return ret
 
-        return cls(registers=(json.loads(data, object_hook=register_object_hook)))
+        registers = json.loads(data, object_hook=register_object_hook)
+        if not isinstance(registers, dict):
+            raise ValueError("not a register cache: the top level of the document is not an object")
+        return cls(registers=registers)
 
     # helper methods to convert register data types
 
-- 
2.43.0


From 6cc24137dc1fbe4b17b64030650b0cff5a176f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 34/37] fix: a compact dump row past the register space is
 skipped

---
 givenergy_modbus/model/register_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 3a3ad96..9390473 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -360,6 +360,10 @@ def parse_compact(text: str) -> "dict[int, RegisterCache]":
             _logger.warning("Skipping compact row with %d hex chars, expected %d: %r", len(hexstr), want, line)
             continue
 
+        if base + count > 0x10000:
+            _logger.warning("Skipping compact row past the 16-bit register space: %r", line)
+            continue
+
         cls = _REG_CLS[bank]
         cache = caches.setdefault(device, RegisterCache())
         for j in range(count):
-- 
2.43.0


From f44713db4ffe79564e1ef945aa98cf1aad313eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 35/37] fix: an inverter whose device type code is of no known
 family can still be read and dumped

---
 givenergy_modbus/model/inverter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/model/inverter.py b/givenergy_modbus/model/inverter.py
index bcf65a5..f377caa 100644
--- a/givenergy_modbus/model/inverter.py
+++ b/givenergy_modbus/model/inverter.py
@@ -1111,7 +1111,10 @@ class SinglePhaseInverter(  # type: ignore[valid-type,misc]
         arm_fw = self.arm_firmware_version  # type: ignore[attr-defined]
         if dtc is None or arm_fw is None:
             return None
-        model = resolve_model(int(dtc, 16), int(arm_fw))
+        try:
+            model = resolve_model(int(dtc, 16), int(arm_fw))
+        except ValueError:  # a device type code of no known family: no evidence either
+            return None
         from givenergy_modbus.model.manifest import battery_energy_source
 
         alt = battery_energy_source(model, metric, arm_fw=int(arm_fw))
@@ -1184,7 +1187,10 @@ class SinglePhaseInverter(  # type: ignore[valid-type,misc]
         arm_fw = self.arm_firmware_version  # type: ignore[attr-defined]
         if dtc is None or arm_fw is None:
             return SINGLE_PHASE_SLOTS
-        model = resolve_model(int(dtc, 16), int(arm_fw))
+        try:
+            model = resolve_model(int(dtc, 16), int(arm_fw))
+        except ValueError:  # a device type code of no known family
+            return SINGLE_PHASE_SLOTS
         if has_extended_slots(model, int(arm_fw)):
             return EXTENDED_SLOTS
         return SINGLE_PHASE_SLOTS
-- 
2.43.0


From 7e57619935a6e87eb1817cb3c08d68c0192e1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 36/37] fix: a directly read inverter with a device type code
 of no known family no longer hides the fleet

---
 givenergy_modbus/model/plant.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 4d174f7..5a19634 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -2153,7 +2153,12 @@ class Plant(GivEnergyBaseModel):
                 if raw_dtc is None:
                     continue
                 arm_fw = cache.get(HR(21)) or 0
-                model = resolve_model(raw_dtc, arm_fw)
+                try:
+                    model = resolve_model(raw_dtc, arm_fw)
+                except ValueError:
+                    # Device type code of no known family: cannot be decoded, so it must not
+                    # hide the inverters that can.
+                    continue
                 inv = select_inverter(model, cache)
                 sn = getattr(inv, "serial_number", None)
                 if sn:
-- 
2.43.0


From 3f29dbbaa86d9aefffd4f748bbf98391e6566ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 37/37] fix: a read of a battery's other registers is no
 observation of its pack

---
 givenergy_modbus/model/plant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/plant.py b/givenergy_modbus/model/plant.py
index 5a19634..de1a149 100644
--- a/givenergy_modbus/model/plant.py
+++ b/givenergy_modbus/model/plant.py
@@ -1175,7 +1175,9 @@ class Plant(GivEnergyBaseModel):
         # all the checks above wave through. Runs last so the existing serial gate owns serial
         # corruption (quietly) and the bounds pass runs first; it must see last-good, so it sits
         # before the update below. Gated to battery banks via the getter identity.
-        if getter_cls is BatteryRegisterGetter:
+        # Any other 60-register read from a battery (its holding registers, IR(0,60)) is no observation
+        # of the pack: judged here it would count as an all-zero one, upsetting cold start and the clock.
+        if getter_cls is BatteryRegisterGetter and any(IR(BANK_BASE + i) in incoming for i in range(60)):
             if not self._splice_guard(device_address, incoming, register_count, now=received_at):
                 return False
             # A committing FULL battery bank closes out any coalesced reject burst (#355).
-- 
2.43.0

