From 61c2b0a61bdc38245a10c9e06d0910caefd23b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 01/27] fix: deliver frames without payload as soon as they are
 complete

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From fec9a0af3cfd97c398cfde290abf60b5f3f69918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 02/27] fix: a frame that cannot be interpreted must not affect
 the other frames

---
 zigpy_cc/uart.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..e711bfe 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,15 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception:
+                # must not take the rest of the read down with it
+                LOGGER.warning("Frame dropped", exc_info=True)
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From 7011d7c89c6a65a631bbafc7301b01e9b4072ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 03/27] fix: forward replies to requests with transaction
 number 0 to one waiter

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..c4173a2 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -242,7 +242,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
 
-- 
2.43.0


From 0dbc77fbfd821adec2e7fa6f1470049aec76ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 04/27] fix: a failed request leaves no response waiter behind
 and keeps its error

---
 zigpy_cc/api.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index c4173a2..c20fa61 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -117,8 +117,13 @@ class API:
         return await self.request_raw(obj, waiter_id, expected_status)
 
     async def request_raw(self, obj: ZpiObject, waiter_id=None, expected_status=None):
-        async with self._lock:
-            return await self._request_raw(obj, waiter_id, expected_status)
+        try:
+            async with self._lock:
+                return await self._request_raw(obj, waiter_id, expected_status)
+        except BaseException:
+            # nobody is waiting for the response of a failed request
+            self._waiters.pop(waiter_id, None)
+            raise
 
     async def _request_raw(self, obj: ZpiObject, waiter_id=None, expected_status=None):
         if expected_status is None:
@@ -144,8 +149,9 @@ class API:
                 and "status" in result.payload
                 and result.payload["status"] not in expected_status
             ):
-                if waiter_id is not None:
-                    self._waiters.pop(waiter_id).set_result(result)
+                response_waiter = self._waiters.pop(waiter_id, None)
+                if response_waiter is not None:
+                    response_waiter.set_result(result)
 
                 raise CommandError(
                     result.payload["status"],
-- 
2.43.0


From 58986db459e137029babcce7f0b82042e09bbbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 05/27] fix: send messages of every application profile as data
 requests

---
 zigpy_cc/zpi_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..fed9157 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,3 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
@@ -6,6 +5,8 @@ from zigpy_cc.buffalo import Buffalo, BuffaloOptions
 from zigpy_cc.definition import Definition
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
+ZDO_PROFILE_ID = 0x0000
+
 BufferAndListTypes = [
     ParameterType.BUFFER,
     ParameterType.BUFFER8,
@@ -103,7 +104,7 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile != ZDO_PROFILE_ID:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
-- 
2.43.0


From 911abcff475ce594e1d40232d82e0278776b9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 06/27] fix: bind and unbind to a group

---
 zigpy_cc/zpi_object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index fed9157..cffaa89 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -6,6 +6,7 @@ from zigpy_cc.definition import Definition
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
 ZDO_PROFILE_ID = 0x0000
+GROUP_MODE = bytes([AddressMode.ADDR_GROUP])
 
 BufferAndListTypes = [
     ParameterType.BUFFER,
@@ -156,6 +157,10 @@ class ZpiObject:
         else:
             # TODO
             # assert sequence == data[0]
+            if name in ("bindReq", "unbindReq") and data[12:13] == GROUP_MODE:
+                # a group destination is two bytes and has no endpoint, but the
+                # command always carries eight bytes and an endpoint
+                data = data[:15] + bytes(7)
             payload = cls.read_parameters(
                 nwk.to_bytes(2, "little") + data[1:], parameters
             )
-- 
2.43.0


From 43b8aedb0e1e274270f7082656d0ed20819d126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 07/27] fix: attribute extended incoming messages to their
 sender

---
 zigpy_cc/zigbee/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..8c38295 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -328,6 +328,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
         nwk = obj.payload["srcaddr"] if "srcaddr" in obj.payload else None
         ieee = obj.payload["ieeeaddr"] if "ieeeaddr" in obj.payload else None
+        if obj.command == "incomingMsgExt":
+            # the source address takes eight bytes whatever the address mode
+            if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                ieee = nwk
+            else:
+                nwk = int.from_bytes(nwk.serialize()[:2], "little")
         profile_id = zha.PROFILE_ID
         src_ep = 0
         dst_ep = 0
-- 
2.43.0


From 26e1a96d7686df7d36b22de960faeb8935064901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 08/27] fix: forward unbind, leave, match and power descriptor
 replies

---
 zigpy_cc/zigbee/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 8c38295..c387617 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -38,6 +38,10 @@ REQUESTS = {
     "activeEpRsp": (ZDOCmd.Active_EP_rsp, 2),
     "simpleDescRsp": (ZDOCmd.Simple_Desc_rsp, 2),
     "bindRsp": (ZDOCmd.Bind_rsp, 2),
+    "unbindRsp": (ZDOCmd.Unbind_rsp, 2),
+    "matchDescRsp": (ZDOCmd.Match_Desc_rsp, 2),
+    "powerDescRsp": (ZDOCmd.Power_Desc_rsp, 2),
+    "mgmtLeaveRsp": (ZDOCmd.Mgmt_Leave_rsp, 2),
 }
 
 IGNORED = (
-- 
2.43.0


From 50e4686d9de53998a97b16ad0e8cedf97d159556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 09/27] fix: honour the hop limit of a multicast

---
 zigpy_cc/zigbee/application.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index c387617..d19e018 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -190,6 +190,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 0xFF,
                 sequence,
                 data,
+                radius=hops or 30,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
             waiter_id = None
-- 
2.43.0


From 9178dbb89c4c0722bd27c700ed5cb6af3b550341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 10/27] fix: honour a configured PAN ID of 0

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From 1fb79e4f62bdcb18c6374180c78af1dd6b510127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 11/27] fix: enforce PAN ID and extended PAN ID on Z-Stack 1.2
 too

---
 zigpy_cc/zigbee/start_znp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index d0d7114..a45331c 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -123,6 +123,8 @@ async def needsToBeInitialised(znp: API, version, options):
                     LOGGER.debug("Skip enforcing panID because a random panID is used")
                 else:
                     raise e
+            else:
+                raise e
 
         return False
     except AssertionError as e:
-- 
2.43.0


From e2ed9628c553d038ab10dbd897814eca12f10533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 12/27] fix: close the port when connecting is aborted

---
 zigpy_cc/uart.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index e711bfe..d179735 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -197,7 +197,7 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         xonxoff, rtscts = True, False
 
     LOGGER.debug("Connecting on port %s with boudrate %d", port, baudrate)
-    _, protocol = await serial_asyncio.create_serial_connection(
+    transport, protocol = await serial_asyncio.create_serial_connection(
         loop,
         lambda: protocol,
         url=port,
@@ -208,9 +208,14 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
+    try:
+        await connected_future
 
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        # nobody else could close the port
+        transport.close()
+        raise
 
     return protocol
-- 
2.43.0


From b2273088c56a8e24f3e26aae812292ecdc05655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 13/27] fix: losing the port without an application is not an
 error

---
 zigpy_cc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index c20fa61..79fc783 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -108,7 +108,8 @@ class API:
             self._uart = None
 
     def connection_lost(self):
-        self._app.connection_lost()
+        if self._app is not None:
+            self._app.connection_lost()
 
     async def request(
         self, subsystem, command, payload, waiter_id=None, expected_status=None
-- 
2.43.0


From 34f4460b36acc334324f7f7b6a5bab489d1871c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 14/27] fix: one reconnection at a time, ended by shutdown

---
 zigpy_cc/zigbee/application.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d19e018..7c22aa1 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -66,16 +66,23 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._reconnect_task = None
 
         self.discovering = False
         self.version = {}
 
     async def shutdown(self):
         """Shutdown application."""
-        self._api.close()
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+        if self._api is not None:
+            self._api.close()
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        if self._reconnect_task is not None:
+            # lost again while reconnecting
+            self._reconnect_task.cancel()
+        self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         while True:
-- 
2.43.0


From 1b7bc2a60c0a22bf396941820c8d50f57d27ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 15/27] fix: encode signed and fixed-size buffer parameters

---
 zigpy_cc/buffalo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 23399ea..58ebcf8 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -33,7 +33,12 @@ class Buffalo:
                     self.write(i)
             else:
                 self.write(value, 8)
-        elif type == ParameterType.BUFFER:
+        elif type == ParameterType.INT8:
+            self.write(value, signed=True)
+        elif ParameterType.is_buffer(type):
+            size = ParameterType(type).name.replace("BUFFER", "")
+            if size and len(value) != int(size):
+                raise OverflowError
             self.buffer += value
         elif type == ParameterType.LIST_UINT8:
             for v in value:
-- 
2.43.0


From 1098cb42615f3eb7121837ff5c2795b0c8a655c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:29 +0000
Subject: [PATCH 16/27] fix: a repeated startup closes the port of the failed
 one

---
 zigpy_cc/zigbee/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 7c22aa1..56fb746 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -100,6 +100,9 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         """Perform a complete application startup"""
 
         LOGGER.info("Starting zigpy-cc version: %s", __version__)
+        if self._api is not None:
+            # the port of a failed startup is still open
+            self._api.close()
         self._api = await API.new(self, self._config[CONF_DEVICE])
 
         try:
-- 
2.43.0


From 59722b3e4dbde046e8d7a3050b63fdf1d8cc760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:05 +0000
Subject: [PATCH 17/27] fix: a connection given up while it is being made is
 not used

---
 zigpy_cc/uart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index d179735..081fb77 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -122,6 +122,9 @@ class Gateway(asyncio.Protocol):
     def connection_made(self, transport: serial_asyncio.SerialTransport):
         """Callback when the uart is connected"""
         LOGGER.debug("Connection made")
+        if self._connected_future and self._connected_future.cancelled():
+            # given up in the meantime, the port is being closed
+            return
         self._open = True
         self._transport = transport
         if self._connected_future:
-- 
2.43.0


From 5e105fc48232eb1030208ab6ee850427657b21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:01 +0000
Subject: [PATCH 18/27] fix: a waiting request is not overtaken by newer ones

---
 zigpy_cc/zigbee/application.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 56fb746..e854a19 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -55,6 +55,18 @@ IGNORED = (
 )
 
 
+class FairSemaphore(Semaphore):
+    """A semaphore nobody overtakes at (asyncio's lets newcomers starve waiters)"""
+
+    def __init__(self, value=1):
+        super().__init__(value)
+        self._turn = asyncio.Lock()
+
+    async def acquire(self):
+        async with self._turn:
+            return await super().acquire()
+
+
 class ControllerApplication(zigpy.application.ControllerApplication):
     _semaphore: Semaphore
     _api: Optional[API]
@@ -115,7 +127,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
         LOGGER.debug("Adapter concurrent: %d", concurrent)
 
-        self._semaphore = asyncio.Semaphore(concurrent)
+        self._semaphore = FairSemaphore(concurrent)
 
         ver = ZnpVersion(self.version["product"]).name
         LOGGER.info("Detected znp version '%s' (%s)", ver, self.version)
-- 
2.43.0


From fbc92c6e3d7f4da1514459c8a3f5850edc7552e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:01 +0000
Subject: [PATCH 19/27] fix: an abandoned request keeps the line until its
 response

When the caller of a synchronous request was cancelled, the next request
was sent before the response of the cancelled one had arrived, and was
completed by it.
---
 zigpy_cc/api.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 79fc783..d0d5a4e 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -77,6 +77,7 @@ class API:
     def __init__(self, device_config: Dict[str, Any]):
         self._config = device_config
         self._lock = asyncio.Lock()
+        self._abandoned = None
         self._waiter_id = 0
         self._waiters: Dict[int, Waiter] = {}
         self._app = None
@@ -130,6 +131,11 @@ class API:
         if expected_status is None:
             expected_status = [0]
 
+        if self._abandoned is not None:
+            # the response to a request whose caller gave up is still to come
+            await asyncio.wait([self._abandoned])
+            self._abandoned = None
+
         LOGGER.debug("--> %s", obj)
         frame = obj.to_unpi_frame()
 
@@ -144,7 +150,7 @@ class API:
                 CommandType.SRSP, obj.subsystem, obj.command, {}, timeout
             )
             self._uart.send(frame)
-            result = await waiter.wait()
+            result = await self._response(waiter)
             if (
                 result
                 and "status" in result.payload
@@ -168,7 +174,7 @@ class API:
             )
             # TODO clear queue, requests waiting for lock
             self._uart.send(frame)
-            return await waiter.wait()
+            return await self._response(waiter)
         else:
             if obj.command_type == CommandType.AREQ:
                 self._uart.send(frame)
@@ -177,6 +183,14 @@ class API:
                 LOGGER.warning("Unknown type '%s'", obj.command_type)
                 raise Exception("Unknown type '{}'".format(obj.command_type))
 
+    async def _response(self, waiter: Waiter):
+        response = asyncio.ensure_future(waiter.wait())
+        try:
+            return await asyncio.shield(response)
+        except asyncio.CancelledError:
+            self._abandoned = response
+            raise
+
     def create_response_waiter(self, obj: ZpiObject, sequence=None):
         if obj.command_type == CommandType.SREQ and obj.command.startswith(
             "dataRequest"
-- 
2.43.0


From df1a653988d209be8e0babae7164501e0d594be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 20/27] fix: a cancelled wait is not resumed by a result
 arriving with it

---
 zigpy_cc/api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index d0d5a4e..10ac135 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -44,7 +44,14 @@ class Waiter(Repr):
         self.sequence = sequence
 
     async def wait(self):
-        return await asyncio.wait_for(self.future, self.timeout / 1000)
+        # wait_for would lose a cancellation that arrives together with the result
+        try:
+            await asyncio.wait([self.future], timeout=self.timeout / 1000)
+        finally:
+            self.future.cancel()
+        if self.future.cancelled():
+            raise asyncio.TimeoutError
+        return self.future.result()
 
     def set_result(self, result) -> None:
         if self.future.cancelled():
-- 
2.43.0


From f32fceb91e5a1264aec9f59a57fb506acecdf299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 21/27] fix: another device's endpoint list is not taken for
 the coordinator's own

A reply to an earlier request, arriving while startup asks the coordinator for
its endpoints, decided which of them were registered.
---
 zigpy_cc/zigbee/start_znp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index a45331c..12950b8 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -152,7 +152,9 @@ async def boot(znp: API):
 async def registerEndpoints(znp: API):
     LOGGER.debug("Register endpoints...")
 
-    active_ep_response = znp.wait_for(CommandType.AREQ, Subsystem.ZDO, "activeEpRsp")
+    active_ep_response = znp.wait_for(
+        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp", {"srcaddr": 0}
+    )
     asyncio.create_task(
         znp.request(
             Subsystem.ZDO, "activeEpReq", {"dstaddr": 0, "nwkaddrofinterest": 0}
-- 
2.43.0


From 529c398097ddc425833111b09b194c4055c75c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 22/27] fix: a request given up before its turn expects no
 reply

Cancelled while waiting for the semaphore it left its reply waiter behind, which
took the reply to the next request of the same kind.
---
 zigpy_cc/zigbee/application.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index e854a19..078906a 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -267,12 +267,13 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
             )
             waiter_id = None
-            if expect_reply:
-                waiter = self._api.create_response_waiter(obj, sequence)
-                if waiter:
-                    waiter_id = waiter.id
 
             async with self._semaphore:
+                # not earlier: a request given up before its turn expects no reply
+                if expect_reply:
+                    waiter = self._api.create_response_waiter(obj, sequence)
+                    if waiter:
+                        waiter_id = waiter.id
                 await self._api.request_raw(obj, waiter_id)
 
         except CommandError as ex:
-- 
2.43.0


From f55db1b687206ccfdf7e1e9092abf76f605ffdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 23/27] fix: keep pacing group and broadcast messages across a
 reconnection

---
 zigpy_cc/zigbee/application.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 078906a..5c16e36 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -68,7 +68,7 @@ class FairSemaphore(Semaphore):
 
 
 class ControllerApplication(zigpy.application.ControllerApplication):
-    _semaphore: Semaphore
+    _semaphore: Optional[Semaphore]
     _api: Optional[API]
     SCHEMA = CONFIG_SCHEMA
     SCHEMA_DEVICE = SCHEMA_DEVICE
@@ -78,6 +78,8 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._concurrent = None
+        self._semaphore = None
         self._reconnect_task = None
 
         self.discovering = False
@@ -127,7 +129,10 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
         LOGGER.debug("Adapter concurrent: %d", concurrent)
 
-        self._semaphore = FairSemaphore(concurrent)
+        if self._semaphore is None or self._concurrent != concurrent:
+            # a reconnection goes on with the old one, which may be in use
+            self._concurrent = concurrent
+            self._semaphore = FairSemaphore(concurrent)
 
         ver = ZnpVersion(self.version["product"]).name
         LOGGER.info("Detected znp version '%s' (%s)", ver, self.version)
-- 
2.43.0


From a3c51765cb0c6ff5e42405324404573ebe473742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 24/27] fix: a repeated request is answered although the first
 reply got lost

---
 zigpy_cc/api.py | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 10ac135..4874fb6 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -36,12 +36,15 @@ class Waiter(Repr):
         payload,
         timeout: int,
         sequence,
+        request=None,
     ):
         self.id = waiter_id
         self.matcher = Matcher(command_type, subsystem, command, payload)
         self.future = asyncio.get_event_loop().create_future()
         self.timeout = timeout
         self.sequence = sequence
+        self.request = request
+        self.accepted = False
 
     async def wait(self):
         # wait_for would lose a cancellation that arrives together with the result
@@ -61,6 +64,13 @@ class Waiter(Repr):
         else:
             self.future.set_result(result)
 
+    def repeats(self, other: "Waiter"):
+        return (
+            self.accepted
+            and self.matcher.command == other.matcher.command
+            and self.request == other.request
+        )
+
     def match(self, obj: ZpiObject):
         matcher = self.matcher
         if (
@@ -174,6 +184,8 @@ class API:
                     ),
                 )
             else:
+                if waiter_id in self._waiters:
+                    self._waiters[waiter_id].accepted = True
                 return result
         elif obj.command_type == CommandType.AREQ and obj.is_reset_command():
             waiter = self.wait_for(
@@ -213,7 +225,12 @@ class API:
                 if rsp == cmd["name"]:
                     payload = {"srcaddr": obj.payload["dstaddr"]}
                     return self.wait_for(
-                        CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
+                        CommandType.AREQ,
+                        Subsystem.ZDO,
+                        rsp,
+                        payload,
+                        sequence=sequence,
+                        request=obj.payload,
                     )
 
         LOGGER.warning("no response cmd configured for %s", obj.command)
@@ -227,6 +244,7 @@ class API:
         payload=None,
         timeout=Timeouts.default,
         sequence=None,
+        request=None,
     ):
         waiter = Waiter(
             self._waiter_id,
@@ -236,6 +254,7 @@ class API:
             payload,
             timeout,
             sequence,
+            request,
         )
         self._waiters[waiter.id] = waiter
         self._waiter_id += 1
@@ -265,25 +284,42 @@ class API:
             LOGGER.error("Error while parsing frame: %s", frame)
             raise e
 
+        sequences = []
         for waiter_id in list(self._waiters):
             waiter = self._waiters.get(waiter_id)
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence is not None:
-                    obj.sequence = waiter.sequence
+                if waiter.request is not None:
+                    sequences = self._answered(waiter)
                     break
 
         LOGGER.debug("<-- %s", obj)
 
         if self._app is not None:
-            self._app.handle_znp(obj)
+            for obj.sequence in sequences or [None]:
+                self._app.handle_znp(obj)
 
         try:
             getattr(self, "_handle_%s" % (obj.command,))(obj)
         except AttributeError:
             pass
 
+    def _answered(self, waiter: Waiter):
+        """
+        Sequences answered by the response to a waiter: its own one and those of
+        repetitions of the same request, whose responses will have no sequence.
+        Otherwise the repetition of a request whose response got lost would fail too.
+        """
+        sequences = []
+        for other in [waiter, *self._waiters.values()]:
+            if other is waiter or other.repeats(waiter):
+                if other.sequence is not None:
+                    sequences.append(other.sequence)
+                other.sequence = None
+
+        return sequences
+
     async def version(self):
         version = await self.request(Subsystem.SYS, "version", {})
         # todo check version
-- 
2.43.0


From 27a57b06d3b337405490bb720aa8c388872fff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 25/27] fix: an address that is not eight bytes long is refused

---
 zigpy_cc/buffalo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 58ebcf8..01cb5f2 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -29,6 +29,9 @@ class Buffalo:
             self.write(value, 4)
         elif type == ParameterType.IEEEADDR:
             if isinstance(value, Iterable):
+                value = list(value)
+                if len(value) != 8:
+                    raise OverflowError
                 for i in value:
                     self.write(i)
             else:
-- 
2.43.0


From d224f1183a6ba7d424a2aab623f5d7ff6f7e8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 26/27] fix: a failing handler does not keep other requests
 from their reply

---
 zigpy_cc/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 4874fb6..ce29052 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -298,7 +298,11 @@ class API:
 
         if self._app is not None:
             for obj.sequence in sequences or [None]:
-                self._app.handle_znp(obj)
+                try:
+                    self._app.handle_znp(obj)
+                except Exception:
+                    # the other requests get their reply all the same
+                    LOGGER.warning("Message not handled: %s", obj, exc_info=True)
 
         try:
             getattr(self, "_handle_%s" % (obj.command,))(obj)
-- 
2.43.0


From 19ad30badac8eac43c6a7f0ac4919951313ba89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 27/27] fix: starting anew while reconnecting does not open the
 port twice

---
 zigpy_cc/zigbee/application.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 5c16e36..e21fce1 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -89,6 +89,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         """Shutdown application."""
         if self._reconnect_task is not None:
             self._reconnect_task.cancel()
+            self._reconnect_task = None
         if self._api is not None:
             self._api.close()
 
@@ -113,6 +114,26 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     async def startup(self, auto_form=False):
         """Perform a complete application startup"""
 
+        reconnecting = self._reconnect_task
+        if (
+            reconnecting is None
+            or reconnecting.done()
+            or reconnecting is asyncio.current_task()
+        ):
+            return await self._startup(auto_form)
+
+        # one after the other, both at once would open the port twice
+        reconnecting.cancel()
+        try:
+            await asyncio.wait([reconnecting])
+            await self._startup(auto_form)
+        except BaseException:
+            if self._reconnect_task is reconnecting:
+                # neither lost again nor shut down in the meantime
+                self._reconnect_task = asyncio.create_task(self.reconnect())
+            raise
+
+    async def _startup(self, auto_form):
         LOGGER.info("Starting zigpy-cc version: %s", __version__)
         if self._api is not None:
             # the port of a failed startup is still open
-- 
2.43.0

