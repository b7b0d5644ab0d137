From 89cf07f49312186e7415fbc6a867176689d632a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 01/23] fix: encode request addresses little endian like every
 decoder reads them

---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From 16dc1d1d623e5346ffcc5f9b1a142fb6aa698c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 02/23] fix: refuse frames that are too short to hold a header

---
 elgas/frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/frames.py b/elgas/frames.py
index 3664b64..18e5ca1 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -52,6 +52,8 @@ class Request:
             raise ValueError("Not a Request frame")
         if not in_bytes.endswith(b"\x0d"):
             raise ValueError("Data does not end with end char")
+        if len(in_bytes) < 16:
+            raise ValueError("Data is too short to be a complete frame")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
         if length != len(in_bytes) - 1:  # STX is not counted
@@ -134,6 +136,8 @@ class Response:
             raise ValueError("Not a Response frame")
         if not in_bytes.endswith(b"\x0d"):
             raise ValueError("Data does not end with end char")
+        if len(in_bytes) < 16:
+            raise ValueError("Data is too short to be a complete frame")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
         if length != len(in_bytes) - 1:  # STX is not counted
-- 
2.43.0


From 9b484572aeb02ab17727b1b0adc8615cf714701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 03/23] fix: raise device errors also when several error bits
 are set

---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..d8aafca 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From c845cea0f1a85e2ae99a7e2b6cc44420752c105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 04/23] fix: leave the connection idle and empty after a device
 error

---
 elgas/connection.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index d8aafca..62ab111 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -157,6 +157,21 @@ class ElgasConnection:
                 f"Added data to connection buffer", data=data, total_buffer=self.buffer
             )
 
+    def handle_error(self, data: bytes):
+        """
+        A device error is the final answer to the outstanding request.
+        """
+        if data[0]:
+            self.reset()
+        raise_error(data)
+
+    def reset(self):
+        """
+        Forget everything received and any outstanding request.
+        """
+        self.buffer = bytearray()
+        self.elgas_state.current_state = state.IDLE
+
     def next_event(self) -> bytes:
 
         if not self.buffer:
@@ -182,7 +197,7 @@ class ElgasConnection:
                 LOG.debug("Decrypted ELGAS response", decrypted=response)
 
             if len(response.data) == 1:
-                raise_error(response.data)
+                self.handle_error(response.data)
 
         except ValueError:
             LOG.debug("Cannot interpret data as frame. Need more data")
-- 
2.43.0


From 428ea0c5e14dbaf79ccf29295c67926f9241b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 05/23] fix: discard frames that cannot be interpreted instead
 of keeping them in the buffer

---
 elgas/connection.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 62ab111..7ff73bd 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -173,6 +173,15 @@ class ElgasConnection:
         self.elgas_state.current_state = state.IDLE
 
     def next_event(self) -> bytes:
+        event = None
+        while event is None:
+            event = self._process_buffer()
+        return event
+
+    def _process_buffer(self):
+        """
+        Handles the first frame in the buffer. Gives None if it was discarded.
+        """
 
         if not self.buffer:
             LOG.debug("Buffer empty. Need more data")
@@ -187,6 +196,7 @@ class ElgasConnection:
             return state.NEED_DATA
 
         data = self.buffer[:end_char_index]
+        del self.buffer[:end_char_index]
         try:
             response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
 
@@ -200,8 +210,8 @@ class ElgasConnection:
                 self.handle_error(response.data)
 
         except ValueError:
-            LOG.debug("Cannot interpret data as frame. Need more data")
-            return state.NEED_DATA
+            LOG.debug("Cannot interpret data as frame. Discarding it")
+            return None
 
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
-- 
2.43.0


From 7049a91502d408382025c0fb378cce2949cdaa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 06/23] fix: do not await a response to a request that could
 not be encoded

---
 elgas/connection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 7ff73bd..056587f 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -108,7 +108,16 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
+        previous_state = self.elgas_state.current_state
         self.elgas_state.process_event(event)
+        try:
+            return self._encode(event)
+        except Exception:
+            # Nothing will be sent, so there is no response to wait for.
+            self.elgas_state.current_state = previous_state
+            raise
+
+    def _encode(self, event) -> bytes:
         application_data = event.to_bytes()
 
         if self.cipher_context:
-- 
2.43.0


From a5db76e9386f62e94eaa74b91c7e876d40cfaa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/23] fix: treat encrypted responses that cannot be decrypted
 like other damaged data

---
 elgas/connection.py | 2 ++
 elgas/security.py   | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 056587f..74f0a7d 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -212,6 +212,8 @@ class ElgasConnection:
             LOG.debug("Received ELGAS response", response=response)
 
             if isinstance(response, frames.EncryptedResponse):
+                if self.cipher_context is None:
+                    raise ValueError("Encrypted response but no encryption key set")
                 response.data = self.cipher_context.decrypt(response.data)
                 LOG.debug("Decrypted ELGAS response", decrypted=response)
 
diff --git a/elgas/security.py b/elgas/security.py
index b57110e..88a2711 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -69,11 +69,14 @@ class CipherContext:
         return header + cipher_text
 
     def decrypt(self, in_data: bytes):
+        if len(in_data) < 3:
+            raise ValueError("Encrypted data is too short to hold a header")
         header = in_data[:3]
         encrypted = in_data[3:]
         original_length = int.from_bytes(header[:2], "little")
         key_id = header[2]
-        assert key_id == self.key_id
+        if key_id != self.key_id:
+            raise ValueError(f"Data is encrypted with key id {key_id}")
         decrypted_data = decrypt(encrypted, self.key, self.key)
         crc = decrypted_data[-2:]
         for_crc = bytearray()
-- 
2.43.0


From 29c26452d3d1b55551ad478b904bd9e1e4c8a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 08/23] fix: report responses to services that are never
 requested as protocol error

---
 elgas/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 74f0a7d..2073a36 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -27,6 +27,10 @@ class ResponsePduFactory:
 
     @staticmethod
     def from_response(response: frames.Response):
+        if response.service not in ResponsePduFactory.service_map:
+            raise exceptions.LocalElgasProtocolError(
+                f"Can't handle response to service {response.service!r}"
+            )
         klass = ResponsePduFactory.service_map[response.service]
         return klass.from_bytes(response.data)
 
-- 
2.43.0


From e51f5017299cbb1a443f0e6c5e972e4c2579e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 09/23] fix: decode all four bytes of the oldest record id in
 archive responses

---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From a742449b86b519323e1eeef267994eeef50a7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 10/23] fix: refuse timestamps whose year does not fit in the
 two digit year field

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..32bd97a 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -212,6 +212,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"Year of {timestamp} does not fit in two digits after 2000")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From ae612a7a2b33e53d925e42c941c2d1b0fd342a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 11/23] fix: refuse parameter blocks with incomplete objects

---
 elgas/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..1f2a95e 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -34,6 +34,8 @@ class ScadaParameterParser:
             object_type = elgas.parameters.enumerations.ParameterObjectType(
                 working_data.pop(0)
             )
+            if length < 3 or length - 3 > len(working_data):
+                raise ValueError(f"Object of length {length} is not complete")
             data = working_data[: length - 3]
             object_list.append(
                 elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
-- 
2.43.0


From 72b847eb17e5f66ed206cb5cd5e930c9a1d5fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 12/23] fix: register the correction counter in the parameter
 and schema factories

---
 elgas/parameters/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From 25da9cb2575c308b23892ff0e7c4a026a54c68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 13/23] fix: load error standard counters, modems and set
 points to objects

---
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From 4a3b6d1f7879176c5545f99b2ed432522e05440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 14/23] fix: load flow rates without decimals

---
 elgas/parameters/flow_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 90d50d409fa4d1ca5573ee4e90153e33aaeb252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 15/23] fix: device error log texts are strings in the schema

---
 elgas/parameters/device_error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..aabd5ee 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -85,8 +85,8 @@ class DeviceErrorSchema(marshmallow.Schema):
     error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
     error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 9ed7e4c27450bea1b28b1ca4ad4e36d15fb7ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 16/23] fix: refuse encrypted data that states more data than
 it holds

---
 elgas/security.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/security.py b/elgas/security.py
index 88a2711..e16974f 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -89,6 +89,8 @@ class CipherContext:
             raise ValueError(
                 f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
             )
+        if original_length > len(decrypted_data) - 2:
+            raise ValueError("Stated length is longer than the encrypted data")
         original_data = decrypted_data[:original_length]
         return original_data
 
-- 
2.43.0


From 1612244821cf7040ba22233164816820127e69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 17/23] fix: start every session of a client with a clean
 connection

---
 elgas/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elgas/client.py b/elgas/client.py
index 5db6480..de5d896 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -39,6 +39,7 @@ class ElgasClient:
 
     def connect(self):
         self.transport.connect()
+        self.elgas_connection.reset()
 
     def disconnect(self):
         self.transport.disconnect()
-- 
2.43.0


From b1708bbac7fdd59964a9be2c33a32a77795f0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 18/23] fix: do not wait forever for data on a closed TCP
 connection

---
 elgas/transport.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..83d4c8f 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -147,7 +147,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            received = self.tcp_socket.recv(amount - len(data))
+            if not received:
+                raise ConnectionError("Connection was closed by the peer")
+            data += received
 
         return data
 
-- 
2.43.0


From 5218b9cbf59e74774e1c783ebcf8afc018f03a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 19/23] fix: do not wait forever for data on a silent serial
 line

---
 elgas/transport.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 83d4c8f..11fb65f 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -253,7 +253,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            received = self.serial_port.read(amount - len(data))
+            if not received:
+                raise serial.SerialTimeoutException("No data within the timeout")
+            data += received
 
         return data
 
-- 
2.43.0


From 74b7c50202f50788cd42c6fd39893c0c154577a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 20/23] fix: close the TCP socket also when it cannot be shut
 down

---
 elgas/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elgas/transport.py b/elgas/transport.py
index 11fb65f..48170a6 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -113,6 +113,7 @@ class BlockingTcpTransport:
                 self.tcp_socket.shutdown(socket.SHUT_RDWR)
                 self.tcp_socket.close()
             except (OSError, IOError, socket.timeout, socket.error) as e:
+                self.tcp_socket.close()
                 self.tcp_socket = None
                 raise exceptions.CommunicationError from e
             self.tcp_socket = None
-- 
2.43.0


From 00d6270d9e6d5f8b0404212758c31fb9308c4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 21/23] fix: only accept requests for sending when no response
 is outstanding

---
 elgas/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 2073a36..d2b5886 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -113,6 +113,10 @@ class ElgasConnection:
 
         LOG.debug("Sending request PDU", pdu=event)
         previous_state = self.elgas_state.current_state
+        if previous_state is not state.IDLE:
+            raise exceptions.LocalElgasProtocolError(
+                f"Can't send {type(event)} when state={previous_state}"
+            )
         self.elgas_state.process_event(event)
         try:
             return self._encode(event)
-- 
2.43.0


From be034aaf96e5324c9d5059248a94805452c5781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 22/23] fix: refuse archive responses that end inside the
 record id

---
 elgas/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..190bf64 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -252,6 +252,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is not complete")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +297,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is not complete")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0


From df5c6d7d47780c35a2a580a928426bd02ef278c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:22 +0000
Subject: [PATCH 23/23] fix: report a line that fails while it is set up as a
 communication error

---
 elgas/transport.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elgas/transport.py b/elgas/transport.py
index 48170a6..eee4eff 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -8,6 +8,11 @@ import structlog
 
 from elgas import exceptions
 
+try:
+    from termios import error as LineError
+except ImportError:  # there is no termios on Windows
+    LineError = OSError
+
 LOG = structlog.get_logger("transport")
 
 
@@ -206,6 +211,7 @@ class SerialTransport:
             OSError,
             IOError,
             serial.SerialException,
+            LineError,
         ) as e:
             raise exceptions.CommunicationError("Unable to connect socket") from e
         LOG.info(f"Connected to {self.port}")
-- 
2.43.0

