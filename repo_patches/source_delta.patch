From e94a29865647daef2a0573a8955fc7586a80c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 01/16] fix: deliver frames without payload as soon as they are
 complete

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From 22a5a915c7376b759559581daddd30c65f2f86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 02/16] fix: do not lose the rest of a chunk when one frame
 cannot be processed

---
 zigpy_cc/uart.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..4e1a020 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,14 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception as e:
+                LOGGER.error("Error while processing frame: %s", e, exc_info=e)
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From d6ed4efd87201c7dac24d7ba4c810947f71cbf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 03/16] fix: transaction number 0 is a valid sequence of a ZDO
 reply

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..c4173a2 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -242,7 +242,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
 
-- 
2.43.0


From 66038b4f1e1b67c3dc3f3a4d5733539f5a98737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 04/16] fix: raise CommandError even if the response waiter is
 already gone

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index c4173a2..9cecb9a 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -144,7 +144,7 @@ class API:
                 and "status" in result.payload
                 and result.payload["status"] not in expected_status
             ):
-                if waiter_id is not None:
+                if waiter_id in self._waiters:
                     self._waiters.pop(waiter_id).set_result(result)
 
                 raise CommandError(
-- 
2.43.0


From 97a8b6d1fd4d76c0d0af55a9534f35bd229c6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 05/16] fix: write the fixed-size buffer and signed integer
 parameters that can be read

---
 zigpy_cc/buffalo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 23399ea..d72c451 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -33,8 +33,10 @@ class Buffalo:
                     self.write(i)
             else:
                 self.write(value, 8)
-        elif type == ParameterType.BUFFER:
+        elif ParameterType.is_buffer(type):
             self.buffer += value
+        elif type == ParameterType.INT8:
+            self.write(value, signed=True)
         elif type == ParameterType.LIST_UINT8:
             for v in value:
                 self.write(v)
-- 
2.43.0


From 23d5c5e87ebc5f06d581b25f1eaeff3919017dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 06/16] fix: only profile 0 is the ZDO, all other profiles are
 application data

---
 zigpy_cc/zpi_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..a9c3870 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,3 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
@@ -6,6 +5,8 @@ from zigpy_cc.buffalo import Buffalo, BuffaloOptions
 from zigpy_cc.definition import Definition
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
+ZDO_PROFILE_ID = 0
+
 BufferAndListTypes = [
     ParameterType.BUFFER,
     ParameterType.BUFFER8,
@@ -103,7 +104,7 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile != ZDO_PROFILE_ID:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
-- 
2.43.0


From 01900f2c0add968f9fbfe3e581a486d43cd697af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 07/16] fix: ZDO commands without a destination address
 parameter

---
 zigpy_cc/api.py        | 2 +-
 zigpy_cc/zpi_object.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 9cecb9a..bc506a0 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -182,7 +182,7 @@ class API:
         if obj.command_type == CommandType.SREQ and obj.command.endswith("Req"):
             rsp = obj.command.replace("Req", "Rsp")
             for cmd in Definition[obj.subsystem]:
-                if rsp == cmd["name"]:
+                if rsp == cmd["name"] and "dstaddr" in obj.payload:
                     payload = {"srcaddr": obj.payload["dstaddr"]}
                     return self.wait_for(
                         CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index a9c3870..0dcb24b 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -157,7 +157,10 @@ class ZpiObject:
             # TODO
             # assert sequence == data[0]
             payload = cls.read_parameters(
-                nwk.to_bytes(2, "little") + data[1:], parameters
+                nwk.to_bytes(2, "little") + data[1:]
+                if parameters and parameters[0]["name"] == "dstaddr"
+                else data[1:],
+                parameters,
             )
 
         return cls(
-- 
2.43.0


From 3b2e50c3fd7cd069fbcd574af51cde3f7d0dfd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 08/16] fix: find the sender of extended incoming messages

---
 zigpy_cc/zigbee/application.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..26dd623 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -367,6 +367,11 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             dst_ep = obj.payload["dstendpoint"]
             data = obj.payload["data"]
             lqi = obj.payload["linkquality"]
+            if obj.command == "incomingMsgExt":
+                if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                    ieee = nwk
+                else:
+                    nwk = int.from_bytes(bytes(nwk[:2]), "little")
 
         else:
             LOGGER.warning(
-- 
2.43.0


From 24b20a32e557bd4592767d482c380df0f86d1010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 09/16] fix: keep a configured PAN ID of 0

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From bbce1c1cbce67880541692e27e939c26442a50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 10/16] fix: close the serial port when connecting is given up
 half-way

---
 zigpy_cc/uart.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index 4e1a020..759d08f 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -196,7 +196,7 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         xonxoff, rtscts = True, False
 
     LOGGER.debug("Connecting on port %s with boudrate %d", port, baudrate)
-    _, protocol = await serial_asyncio.create_serial_connection(
+    transport, protocol = await serial_asyncio.create_serial_connection(
         loop,
         lambda: protocol,
         url=port,
@@ -207,9 +207,15 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
+    try:
+        await connected_future
 
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        # nobody else can close the port when opening it is given up half-way
+        protocol._open = False
+        transport.close()
+        raise
 
     return protocol
-- 
2.43.0


From 366bcbfb70da11dc19cd49672ef1e03ba5172481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 11/16] fix: do not fail on join indications before the
 firmware version is known

---
 zigpy_cc/zigbee/application.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 26dd623..b1377ef 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -399,7 +399,8 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         self.handle_message(device, profile_id, cluster_id, src_ep, dst_ep, data)
 
     def set_led(self, mode: LedMode):
-        if self.version["product"] != ZnpVersion.zStack3x0:
+        # the firmware is not known until startup has read the version
+        if self.version.get("product", ZnpVersion.zStack3x0) != ZnpVersion.zStack3x0:
             try:
                 loop = asyncio.get_event_loop()
                 loop.create_task(
-- 
2.43.0


From c9d324a74f6da7ef46cc6027c759792a010ab598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 12/16] fix: send group messages with the number of hops asked
 for

---
 zigpy_cc/zigbee/application.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index b1377ef..98f80e4 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -186,6 +186,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 0xFF,
                 sequence,
                 data,
+                radius=hops or 30,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
             waiter_id = None
-- 
2.43.0


From f58d57cd7ff4ebf35e1b370af910a3c1415d1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:44 +0000
Subject: [PATCH 13/16] fix: redo an interrupted initialisation of a stick that
 was configured before

---
 zigpy_cc/zigbee/start_znp.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index d0d7114..f8dd993 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -167,6 +167,20 @@ async def registerEndpoints(znp: API):
 
 
 async def initialise(znp: API, version, options: NetworkOptions):
+    # a marker left by an earlier configuration must not survive an initialisation
+    # that is interrupted half-way
+    await znp.request(
+        Subsystem.SYS,
+        "osalNvItemInit",
+        Items.znpHasConfiguredInit(version),
+        None,
+        [0, 9],
+    )
+    await znp.request(
+        Subsystem.SYS,
+        "osalNvWrite",
+        {**Items.znpHasConfigured(version), "value": b"\x00"},
+    )
     await znp.request(Subsystem.SYS, "resetReq", {"type": Constants.SYS.resetType.SOFT})
     await znp.request(Subsystem.SYS, "osalNvWrite", Items.startupOption(0x02))
     await znp.request(Subsystem.SYS, "resetReq", {"type": Constants.SYS.resetType.SOFT})
-- 
2.43.0


From f002ea9dda8bba7ea77864b2011408c0d58add5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:19 +0000
Subject: [PATCH 14/16] fix: initialise a Z-Stack 1.2 stick that holds another
 PAN ID

---
 zigpy_cc/zigbee/start_znp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index f8dd993..98a5486 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -123,6 +123,8 @@ async def needsToBeInitialised(znp: API, version, options):
                     LOGGER.debug("Skip enforcing panID because a random panID is used")
                 else:
                     raise e
+            else:
+                raise e
 
         return False
     except AssertionError as e:
-- 
2.43.0


From 3b444943b5545b459b2178d01d844dca528fe993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 15/16] fix: probe says no when opening the port fails with an
 OSError

---
 zigpy_cc/api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index bc506a0..c98d7fb 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -2,7 +2,6 @@ import asyncio
 import logging
 from typing import Any, Dict, Optional
 
-import serial
 import zigpy.exceptions
 
 from zigpy_cc import uart
@@ -280,7 +279,7 @@ class API:
             return True
         except (
             asyncio.TimeoutError,
-            serial.SerialException,
+            OSError,  # serial.SerialException, and what pyserial does not wrap in it
             zigpy.exceptions.ZigbeeException,
         ) as exc:
             LOGGER.debug(
-- 
2.43.0


From 84c578c18146ff33ef1c8f5a8ba47115fe7889e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 16/16] fix: reconnect once at a time, and not after shutting
 down

A port lost again while reconnecting started a second reconnection, which closed
and reopened the connection of the first; shutting down did not stop a reconnection.
---
 zigpy_cc/zigbee/application.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 98f80e4..30a0728 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -62,28 +62,43 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._lost = False
+        self._reconnect_task: Optional[asyncio.Task] = None
 
         self.discovering = False
         self.version = {}
 
     async def shutdown(self):
         """Shutdown application."""
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+            self._reconnect_task = None
         self._api.close()
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        self._lost = True
+        if self._reconnect_task is None:
+            self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         while True:
             if self._api is not None:
                 self._api.close()
             await asyncio.sleep(5)
+            self._lost = False
             try:
                 await self.startup(True)
-                break
+                if not self._lost:
+                    break
+            except asyncio.CancelledError:
+                raise
             except Exception as e:
                 LOGGER.info("Failed to reconnect: %s", e)
                 pass
+            if self._reconnect_task is None:
+                # shut down, but a request has swallowed the cancellation
+                break
+        self._reconnect_task = None
 
     async def startup(self, auto_form=False):
         """Perform a complete application startup"""
-- 
2.43.0

