From 02921e109d5ac4764a4431b919d56975c9cc0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 01/24] fix: encode request frame addresses little endian like
 every decoder reads them

---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From bf601bd94c3491f0679f91efe2a21f4e777b12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 02/24] fix: reject frames whose header and redundancy bytes
 overlap

---
 elgas/frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/frames.py b/elgas/frames.py
index 3664b64..5e3551d 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -52,6 +52,8 @@ class Request:
             raise ValueError("Not a Request frame")
         if not in_bytes.endswith(b"\x0d"):
             raise ValueError("Data does not end with end char")
+        if len(in_bytes) < 16:  # header, redundancy and end char without any data
+            raise ValueError("Data is too short to be a frame")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
         if length != len(in_bytes) - 1:  # STX is not counted
@@ -134,6 +136,8 @@ class Response:
             raise ValueError("Not a Response frame")
         if not in_bytes.endswith(b"\x0d"):
             raise ValueError("Data does not end with end char")
+        if len(in_bytes) < 16:  # header, redundancy and end char without any data
+            raise ValueError("Data is too short to be a frame")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
         if length != len(in_bytes) - 1:  # STX is not counted
-- 
2.43.0


From 101fb953205febfbac3205d4d020a4246f62f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 03/24] fix: read all four bytes of the oldest record id in
 archive responses

---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From 0b97a55118be4bccd362726656153da88549c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 04/24] fix: WriteTimeResponse belongs to the write device time
 service

---
 elgas/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..57c993c 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -160,7 +160,7 @@ class WriteTimeResponse:
 
     service: ClassVar[
         constants.ServiceNumber
-    ] = constants.ServiceNumber.READ_DEVICE_TIME
+    ] = constants.ServiceNumber.WRITE_DEVICE_TIME
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
-- 
2.43.0


From 68068cc6de1eb9fcb2e2f66dfdca613dc487c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/24] fix: raise an error for error responses with several
 error bits set

---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..d8aafca 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From c6fbec7cdaaf8edec75cdcddcd3e08a4136c46b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/24] fix: register the correction counter in the parameter
 factories

---
 elgas/parameters/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From 64fc2a4e977298af6b4b2c7f1a999974445436c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 07/24] fix: difference base counter can be decoded like the
 difference counter

---
 elgas/parameters/difference_counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/difference_counter.py b/elgas/parameters/difference_counter.py
index 3938125..df46928 100644
--- a/elgas/parameters/difference_counter.py
+++ b/elgas/parameters/difference_counter.py
@@ -83,7 +83,7 @@ class DifferenceCounter:
         )
 
 
-class DifferenceBaseCounter:
+class DifferenceBaseCounter(DifferenceCounter):
     object_type: ClassVar[
         ParameterObjectType
     ] = ParameterObjectType.DIFFERENCE_BASE_COUNTER
-- 
2.43.0


From 9572b74fea8fc1141d89c972083413088cefbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 08/24] fix: device error and sum of alarms objects can be
 decoded again

---
 elgas/parameters/device_error.py  | 18 ++++++++++++------
 elgas/parameters/sum_of_alarms.py | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..f1b8365 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -22,9 +22,9 @@ class DeviceError:
     in_binary_archive: bool
     in_data_archive: bool
     name: str
-    error_bit_order_in_actual_values: int
-    error_bit_order_in_binary_archive_record: int  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
-    error_bit_order_in_data_archive_record: int
+    error_bit_order_in_actual_values: Optional[int] = attr.ib(default=None, kw_only=True)
+    error_bit_order_in_binary_archive_record: Optional[int] = attr.ib(default=None, kw_only=True)  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
+    error_bit_order_in_data_archive_record: Optional[int] = attr.ib(default=None, kw_only=True)
     action_during_change: Optional[int]
     text_log_0: Optional[str]
     text_log_1: Optional[str]
@@ -81,9 +81,15 @@ class DeviceErrorSchema(marshmallow.Schema):
     in_binary_archive = marshmallow.fields.Boolean(required=True)
     in_data_archive = marshmallow.fields.Boolean(required=True)
     name = marshmallow.fields.String(required=True)
-    error_bit_order_in_actual_values = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
+    error_bit_order_in_actual_values = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
diff --git a/elgas/parameters/sum_of_alarms.py b/elgas/parameters/sum_of_alarms.py
index 4d4a1cc..deaae51 100644
--- a/elgas/parameters/sum_of_alarms.py
+++ b/elgas/parameters/sum_of_alarms.py
@@ -22,9 +22,9 @@ class SumOfAlarms:
     in_binary_archive: bool
     in_data_archive: bool
     name: str
-    error_bit_order_in_actual_values: int
-    error_bit_order_in_binary_archive_record: int  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
-    error_bit_order_in_data_archive_record: int
+    error_bit_order_in_actual_values: Optional[int] = attr.ib(default=None, kw_only=True)
+    error_bit_order_in_binary_archive_record: Optional[int] = attr.ib(default=None, kw_only=True)  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
+    error_bit_order_in_data_archive_record: Optional[int] = attr.ib(default=None, kw_only=True)
     action_during_change: Optional[int]
     text_log_0: Optional[str]
     text_log_1: Optional[str]
@@ -80,9 +80,15 @@ class SumOfAlarmsSchema(marshmallow.Schema):
     in_binary_archive = marshmallow.fields.Boolean(required=True)
     in_data_archive = marshmallow.fields.Boolean(required=True)
     name = marshmallow.fields.String(required=True)
-    error_bit_order_in_actual_values = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
+    error_bit_order_in_actual_values = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
-- 
2.43.0


From e4d5454ac546e68c549bb2d14aa5c74aaf5eb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 09/24] fix: log texts of a device error are serialised as text

---
 elgas/parameters/device_error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index f1b8365..c7a4685 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -91,8 +91,8 @@ class DeviceErrorSchema(marshmallow.Schema):
         required=True, allow_none=True
     )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From ff1fb44284a9e07ae20a449edc2ea8c787b51496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 10/24] fix: set point, modem and error standard counter
 schemas load objects

---
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From 2dd0b03ea8b052d5fec5fa3975987913bfe27e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 11/24] fix: flow rate without decimals can be loaded from its
 serialised form

---
 elgas/parameters/flow_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From c248f6505437744efc4006ba119fe43f438b0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 12/24] fix: do not loop forever when the peer closes the
 connection or a serial read times out

---
 elgas/transport.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..218f8aa 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -147,7 +147,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            received = self.tcp_socket.recv(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Connection closed by peer")
+            data += received
 
         return data
 
@@ -250,7 +253,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            received = self.serial_port.read(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Timed out waiting for data")
+            data += received
 
         return data
 
-- 
2.43.0


From b5ec6363764529537b6b3040034e99c245574bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 13/24] fix: close the socket also when shutting it down fails

---
 elgas/transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 218f8aa..b27eff3 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -110,8 +110,10 @@ class BlockingTcpTransport:
         if self.tcp_socket:
             # only disconnect if there is a socket.
             try:
-                self.tcp_socket.shutdown(socket.SHUT_RDWR)
-                self.tcp_socket.close()
+                try:
+                    self.tcp_socket.shutdown(socket.SHUT_RDWR)
+                finally:
+                    self.tcp_socket.close()
             except (OSError, IOError, socket.timeout, socket.error) as e:
                 self.tcp_socket = None
                 raise exceptions.CommunicationError from e
-- 
2.43.0


From 3704357634b5fcab64e45c667ff127ef5d71947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 14/24] fix: a request that cannot be encoded leaves the
 connection state unchanged

---
 elgas/connection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index d8aafca..f4bc0e5 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -108,7 +108,16 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
+        previous_state = self.elgas_state.current_state
         self.elgas_state.process_event(event)
+        try:
+            return self._encode(event)
+        except Exception:
+            # Nothing to send, so there will be no response to wait for.
+            self.elgas_state.current_state = previous_state
+            raise
+
+    def _encode(self, event) -> bytes:
         application_data = event.to_bytes()
 
         if self.cipher_context:
-- 
2.43.0


From 8b7110eb0f5d56736af3bc9735931acdb2696530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 15/24] fix: a frame that cannot be interpreted no longer
 blocks the receive buffer

---
 elgas/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index f4bc0e5..3dce2fc 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -181,6 +181,8 @@ class ElgasConnection:
             return state.NEED_DATA
 
         data = self.buffer[:end_char_index]
+        # The frame is used up, whatever it turns out to contain.
+        self.buffer = self.buffer[end_char_index:]
         try:
             response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
 
-- 
2.43.0


From c3f55e60e4ec9e8cd8ff30ec3adb38d5fa68f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 16/24] fix: an error response ends the request so that the
 connection can be used again

---
 elgas/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dce2fc..47a13e5 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -199,6 +199,11 @@ class ElgasConnection:
             LOG.debug("Cannot interpret data as frame. Need more data")
             return state.NEED_DATA
 
+        except exceptions.ElgasError:
+            # The device has answered, even if it refused. Ready for a new request.
+            self.elgas_state.current_state = state.IDLE
+            raise
+
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
         self.elgas_state.process_event(pdu)
-- 
2.43.0


From 721ed9f62aee22f88c8698db71606416fb7ed153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 17/24] fix: reject encrypted data that declares more data than
 it contains

---
 elgas/security.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/security.py b/elgas/security.py
index b57110e..f8b334e 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -86,6 +86,8 @@ class CipherContext:
             raise ValueError(
                 f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
             )
+        if original_length > len(decrypted_data) - 2:
+            raise ValueError("Length of encrypted data is longer than the data")
         original_data = decrypted_data[:original_length]
         return original_data
 
-- 
2.43.0


From 4a0c8ef047548025ae1de15711263b83ffe1df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 18/24] fix: refuse to encode years that do not fit the
 two-digit field

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..86aa598 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -212,6 +212,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"Only the years 2000-2099 can be encoded, got {timestamp!r}")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From 482625ecc760352b800a864bb7e8b7d4cd0e0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 19/24] fix: refuse archive responses that are too short for
 the record id

---
 elgas/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index 57c993c..a55fe5d 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -252,6 +252,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:  # archive and oldest record id
+            raise ValueError(f"Archive response is too short: {in_bytes!r}")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +297,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:  # archive and oldest record id
+            raise ValueError(f"Archive response is too short: {in_bytes!r}")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0


From b6332c5f57bb170fcb0344eb0fdfcc8ea0be38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 20/24] fix: a restarted timeout follows its new duration, zero
 or infinite included

---
 elgas/transport.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index b27eff3..9f63fe9 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -48,8 +48,7 @@ class Timeout:
         Restart a timeout, only supported if a timeout was already set up
         before.
         """
-        self.duration = duration
-        self.target_time = time.monotonic() + duration
+        self.__init__(duration)
 
 
 class ElgasTransport(Protocol):
-- 
2.43.0


From de93adb603e730939aabc51e8f80c8c19a4ec004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 21/24] fix: encrypted data without header or with another key
 id raises ValueError

---
 elgas/security.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elgas/security.py b/elgas/security.py
index f8b334e..b0d87d0 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -69,11 +69,14 @@ class CipherContext:
         return header + cipher_text
 
     def decrypt(self, in_data: bytes):
+        if len(in_data) < 3:
+            raise ValueError("Encrypted data is too short to have a header")
         header = in_data[:3]
         encrypted = in_data[3:]
         original_length = int.from_bytes(header[:2], "little")
         key_id = header[2]
-        assert key_id == self.key_id
+        if key_id != self.key_id:
+            raise ValueError(f"Data is encrypted with key id {key_id}")
         decrypted_data = decrypt(encrypted, self.key, self.key)
         crc = decrypted_data[-2:]
         for_crc = bytearray()
-- 
2.43.0


From 6e2c07b029019bb23df7dcf03db6375e658e32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 22/24] fix: an encrypted response without a configured key is
 not interpretable

---
 elgas/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 47a13e5..910b316 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -189,6 +189,8 @@ class ElgasConnection:
             LOG.debug("Received ELGAS response", response=response)
 
             if isinstance(response, frames.EncryptedResponse):
+                if self.cipher_context is None:
+                    raise ValueError("No key to decrypt the response with")
                 response.data = self.cipher_context.decrypt(response.data)
                 LOG.debug("Decrypted ELGAS response", decrypted=response)
 
-- 
2.43.0


From 3e436393ba5e69fdcc5a182ff71be37ac6ecec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 23/24] fix: a response of a service without requests raises a
 protocol error

---
 elgas/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 910b316..ec03813 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -27,7 +27,12 @@ class ResponsePduFactory:
 
     @staticmethod
     def from_response(response: frames.Response):
-        klass = ResponsePduFactory.service_map[response.service]
+        try:
+            klass = ResponsePduFactory.service_map[response.service]
+        except KeyError:
+            raise exceptions.LocalElgasProtocolError(
+                f"Can't handle a response of service {response.service!r}"
+            )
         return klass.from_bytes(response.data)
 
 
-- 
2.43.0


From 9fcadbbd936926f4e823e4967dd288e770b2f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 24/24] fix: parse of an empty stored stream raises ValueError

---
 elgas/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..27537f9 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -22,7 +22,7 @@ class ScadaParameterParser:
     data: Optional[bytes] = attr.ib(default=None)
 
     def parse(self, data: Optional[bytes] = None):
-        working_data = bytearray(self.data or data)
+        working_data = bytearray(self.data or data or b"")
 
         if not working_data:
             raise ValueError("No data to parse")
-- 
2.43.0

