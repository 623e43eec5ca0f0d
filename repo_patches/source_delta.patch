From 96420e1b6ca03cb1bafbc0cf6b5713d823c9a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 01/20] fix: encode request addresses little-endian

Request.from_bytes and the responses read measuring-place addresses
little-endian, but Request.to_bytes wrote them big-endian, so any address
other than a byte palindrome reached another device.
---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From 9e56ce5588218cb58893c518e25f26067ed6eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 02/20] fix: decode all four bytes of the archive record id

The record id is a 32-bit field (the request encodes four bytes and the
payload starts at byte 5) but only three bytes of it were decoded.
---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From d01c8477d557b8f4aafe52f89a758a77f29a8d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 03/20] fix: raise device errors with several error bits set

Each bit of the error byte is one error. Replies with more than one bit
set matched none of the comparisons and were decoded as data.
---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..d8aafca 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From 48b5a4264679e8a4ad46ba764ef23b0ae1b4a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 04/20] fix: do not let bad frames or device errors block the
 connection

A frame that could not be decoded stayed first in the receive buffer, so
everything received after it, including the awaited response, was never
looked at. After a device error the error frame stayed in the buffer and
the request stayed outstanding, so no new request could be sent.
---
 elgas/connection.py | 57 ++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index d8aafca..6375c3c 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -159,34 +159,47 @@ class ElgasConnection:
 
     def next_event(self) -> bytes:
 
-        if not self.buffer:
-            LOG.debug("Buffer empty. Need more data")
-            return state.NEED_DATA
+        while True:
+            if not self.buffer:
+                LOG.debug("Buffer empty. Need more data")
+                return state.NEED_DATA
+
+            # do we have an end char?
+            try:
+                end_char_index = self.buffer.index(b"\x0d") + 1
+            except ValueError:
+                # No end char in buffer and we need more data.
+                LOG.debug("No end char in data. Need more data")
+                return state.NEED_DATA
+
+            data = self.buffer[:end_char_index]
+            # The end char always ends a frame. Whatever it turns out to be it should
+            # not be interpreted again or block what comes after it.
+            self.buffer = self.buffer[end_char_index:]
+            try:
+                response = frames.ResponseFactory.from_bytes(
+                    utils.return_characters(data)
+                )
 
-        # do we have an end char?
-        try:
-            end_char_index = self.buffer.index(b"\x0d") + 1
-        except ValueError:
-            # No end char in buffer and we need more data.
-            LOG.debug("No end char in data. Need more data")
-            return state.NEED_DATA
+                LOG.debug("Received ELGAS response", response=response)
 
-        data = self.buffer[:end_char_index]
-        try:
-            response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
+                if isinstance(response, frames.EncryptedResponse):
+                    response.data = self.cipher_context.decrypt(response.data)
+                    LOG.debug("Decrypted ELGAS response", decrypted=response)
 
-            LOG.debug("Received ELGAS response", response=response)
+                break
 
-            if isinstance(response, frames.EncryptedResponse):
-                response.data = self.cipher_context.decrypt(response.data)
-                LOG.debug("Decrypted ELGAS response", decrypted=response)
+            except ValueError:
+                LOG.debug("Cannot interpret data as frame. Discarding it")
 
-            if len(response.data) == 1:
+        if len(response.data) == 1:
+            try:
                 raise_error(response.data)
-
-        except ValueError:
-            LOG.debug("Cannot interpret data as frame. Need more data")
-            return state.NEED_DATA
+            except exceptions.ElgasError:
+                # The request has been answered.
+                self.buffer = bytearray()
+                self.elgas_state.current_state = state.IDLE
+                raise
 
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
-- 
2.43.0


From 4daf2c559c76063d7c7a2350b02ed9eeee691aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 05/20] fix: keep the connection idle when a request cannot be
 encoded

The state was changed before the request was encoded, so an argument out
of range left the connection waiting for the response to a request that
was never sent.
---
 elgas/connection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 6375c3c..2a4740e 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -108,7 +108,16 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
+        previous_state = self.elgas_state.current_state
         self.elgas_state.process_event(event)
+        try:
+            return self._to_frame(event)
+        except Exception:
+            # Nothing will be sent so there will not be any response.
+            self.elgas_state.current_state = previous_state
+            raise
+
+    def _to_frame(self, event) -> bytes:
         application_data = event.to_bytes()
 
         if self.cipher_context:
-- 
2.43.0


From 32c6d38c37653b65a5f664ebbf93b48b659b6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 06/20] fix: raise CommunicationError when the peer closed or
 is silent

socket.recv() returns no data when the peer has closed and Serial.read()
returns no data on timeout; both were read again forever.
---
 elgas/transport.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..55ec610 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -147,7 +147,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            received = self.tcp_socket.recv(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Connection closed by peer")
+            data += received
 
         return data
 
@@ -250,7 +253,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            received = self.serial_port.read(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Timeout reading serial port")
+            data += received
 
         return data
 
-- 
2.43.0


From 237a04ebb813532e5babf2e8b878151e8425acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 07/20] fix: apply the timeout to serial writes

A port that does not take any data made send() block forever.
---
 elgas/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elgas/transport.py b/elgas/transport.py
index 55ec610..1810910 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -200,6 +200,7 @@ class SerialTransport:
                 port=self.port,
                 baudrate=self.baud_rate,
                 timeout=self.timeout,
+                write_timeout=self.timeout,
             )
         except (
             OSError,
-- 
2.43.0


From 10385e38cf7f2c9fb8fc8442ac8a3e8f595133a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 08/20] fix: close the socket when shutdown fails

When the peer has reset the connection shutdown() raises and the socket
was dropped without being closed.
---
 elgas/transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 1810910..3814b2a 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -110,8 +110,10 @@ class BlockingTcpTransport:
         if self.tcp_socket:
             # only disconnect if there is a socket.
             try:
-                self.tcp_socket.shutdown(socket.SHUT_RDWR)
-                self.tcp_socket.close()
+                try:
+                    self.tcp_socket.shutdown(socket.SHUT_RDWR)
+                finally:
+                    self.tcp_socket.close()
             except (OSError, IOError, socket.timeout, socket.error) as e:
                 self.tcp_socket = None
                 raise exceptions.CommunicationError from e
-- 
2.43.0


From f904dead12e7ce83d44da445a6e0729cd6f4e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 09/20] fix: register the correction counter in the parameter
 factories

The class and schema existed, but a device with a correction counter
could not be read.
---
 elgas/parameters/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From e3051c2e4694a2081dcc970c6c55cd706f7b7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 10/20] fix: decode difference base counters

DifferenceBaseCounter had neither fields nor from_bytes; it has the
layout of the difference counter, as its schema already says.
---
 elgas/parameters/difference_counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/difference_counter.py b/elgas/parameters/difference_counter.py
index 3938125..df46928 100644
--- a/elgas/parameters/difference_counter.py
+++ b/elgas/parameters/difference_counter.py
@@ -83,7 +83,7 @@ class DifferenceCounter:
         )
 
 
-class DifferenceBaseCounter:
+class DifferenceBaseCounter(DifferenceCounter):
     object_type: ClassVar[
         ParameterObjectType
     ] = ParameterObjectType.DIFFERENCE_BASE_COUNTER
-- 
2.43.0


From 099aa607d32a84709b60d1cb9bbb9e0f28879268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 11/20] fix: load every parameter schema back to its object

Three schemas loaded a dict instead of the object, flow rates without
decimals and device errors with log texts could be dumped but not loaded.
---
 elgas/parameters/device_error.py           | 4 ++--
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/flow_rate.py              | 2 +-
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 5 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..aabd5ee 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -85,8 +85,8 @@ class DeviceErrorSchema(marshmallow.Schema):
     error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
     error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From 201c44d34b0d11da5ea78e3c1065fdd69651c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 12/20] fix: refuse dates the device format cannot represent

The year has two digits. Years from 2100 were encoded in seven bytes and
years before 2000 failed on the minus sign or gave another date.
---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..6628534 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -212,6 +212,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"Year {timestamp.year} cannot be encoded in 2 digits")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From 7b98b93af74570aa0e09eea22984719a1c69fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 13/20] fix: refuse truncated parameter streams

A record cut short was decoded from the bytes present and a length below
3 sliced from the end of the stream.
---
 elgas/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..8090a79 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -34,6 +34,10 @@ class ScadaParameterParser:
             object_type = elgas.parameters.enumerations.ParameterObjectType(
                 working_data.pop(0)
             )
+            if length < 3 or length - 3 > len(working_data):
+                raise ValueError(
+                    f"Object of length {length} does not fit in remaining data"
+                )
             data = working_data[: length - 3]
             object_list.append(
                 elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
-- 
2.43.0


From 215ffc8bfceca80fd694ffe3d575ec2757fff991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 14/20] fix: write time response has the write time service
 number

---
 elgas/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..57c993c 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -160,7 +160,7 @@ class WriteTimeResponse:
 
     service: ClassVar[
         constants.ServiceNumber
-    ] = constants.ServiceNumber.READ_DEVICE_TIME
+    ] = constants.ServiceNumber.WRITE_DEVICE_TIME
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
-- 
2.43.0


From 60239d06b036f8c9e9271fa78dd6ec20d60c67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 15/20] fix: start every client connection clean

After a failed exchange the request stayed outstanding and received data
stayed in the buffer, so a client could not be used again even when
reconnected.
---
 elgas/client.py     | 1 +
 elgas/connection.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/elgas/client.py b/elgas/client.py
index 5db6480..de5d896 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -39,6 +39,7 @@ class ElgasClient:
 
     def connect(self):
         self.transport.connect()
+        self.elgas_connection.reset()
 
     def disconnect(self):
         self.transport.disconnect()
diff --git a/elgas/connection.py b/elgas/connection.py
index 2a4740e..9a0d5b3 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -147,6 +147,13 @@ class ElgasConnection:
         escaped_data = utils.escape_characters(frame_data)
         return escaped_data
 
+    def reset(self):
+        """
+        Forget about received data and outstanding request.
+        """
+        self.buffer = bytearray()
+        self.elgas_state.current_state = state.IDLE
+
     def receive_data(self, data: bytes):
         """
         Add data into the receive buffer. Also deescape the data so correct data is in
-- 
2.43.0


From 1b089b6d11643d866b41969fd4061caa80f51818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 16/20] fix: refuse an encryption key without key id

Traffic, with the password, was silently sent unencrypted.
---
 elgas/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 9a0d5b3..9b17bdd 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -37,8 +37,10 @@ def create_cipher_context(
     """
     If both encryption key and encryption key id is set then return a cipher context
     """
-    if connection.encryption_key is None or connection.encryption_key_id is None:
+    if connection.encryption_key is None:
         return None
+    elif connection.encryption_key_id is None:
+        raise ValueError("An encryption key needs an encryption key id")
     else:
         return security.CipherContext(
             connection.encryption_key_id, connection.encryption_key
-- 
2.43.0


From 80a5e5f307633fe066306f2bae8173ba315eb171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 17/20] fix: refuse passwords that do not fit the password
 field

A longer password pushed every following field of the request out of
place.
---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 6628534..2f7105e 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -173,6 +173,8 @@ def pad_password(password: str):
     Passwords are 6 characters long. But are sent as 10 characters where the last
     4 characters are insignificant.
     """
+    if len(password) > 6:
+        raise ValueError("Password can not be longer than 6 characters")
     possible_chars = "abcdefghijklmnopqrstuvxyzABCDEFGHIJKLMNOPQRSTUVXYZ0123456789"
     two_random = random.choices(possible_chars, k=2)
     # return password + "".join(four_random)
-- 
2.43.0


From 14cedda97f1692711c50d73fef3de8e211adaebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 18/20] fix: refuse archive responses shorter than their fixed
 fields

---
 elgas/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index 57c993c..160c4e8 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -252,6 +252,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is shorter than its fixed fields")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +297,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is shorter than its fixed fields")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0


From 62dae2f90605be6b68c69a5af4b2f80fd9ca5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 19/20] fix: refuse a foreign encryption key id also when
 assertions are disabled

The key id of a received payload was only checked with an assert statement, so
python -O accepted payloads under any key id.
---
 elgas/security.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elgas/security.py b/elgas/security.py
index b57110e..b889cc9 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -73,7 +73,10 @@ class CipherContext:
         encrypted = in_data[3:]
         original_length = int.from_bytes(header[:2], "little")
         key_id = header[2]
-        assert key_id == self.key_id
+        if key_id != self.key_id:
+            raise ValueError(
+                f"Data is encrypted with key id {key_id} and not {self.key_id!r}"
+            )
         decrypted_data = decrypt(encrypted, self.key, self.key)
         crc = decrypted_data[-2:]
         for_crc = bytearray()
-- 
2.43.0


From 4d335b079f243bd252bf54ea1ccbe44471bde282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 20/20] fix: refuse encrypted data shorter than its header with
 ValueError

---
 elgas/security.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/security.py b/elgas/security.py
index b889cc9..14aaea5 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -69,6 +69,8 @@ class CipherContext:
         return header + cipher_text
 
     def decrypt(self, in_data: bytes):
+        if len(in_data) < 3:
+            raise ValueError("Encrypted data is shorter than its header")
         header = in_data[:3]
         encrypted = in_data[3:]
         original_length = int.from_bytes(header[:2], "little")
-- 
2.43.0

