From 9c02419ea558ceca0e3b77c378eb2a0290140c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 01/23] fix: fail instead of spinning forever when the peer
 closes or stays silent

recv() returning no bytes means end of stream on TCP and an expired read
timeout on a serial port. Both were retried forever.
---
 elgas/transport.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..3040253 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -147,7 +147,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            received = self.tcp_socket.recv(amount - len(data))
+            if not received:
+                raise ConnectionError("Connection closed by peer")
+            data += received
 
         return data
 
@@ -250,7 +253,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            received = self.serial_port.read(amount - len(data))
+            if not received:
+                raise serial.SerialException("Timeout waiting for data")
+            data += received
 
         return data
 
-- 
2.43.0


From 298d2d034af74a806af602a3dd42414bfe60ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 02/23] fix: close the TCP socket even when shutting it down
 fails

shutdown() fails on a connection the peer has already reset, and the socket
was then dropped without being closed.
---
 elgas/transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3040253..c513baf 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -110,8 +110,10 @@ class BlockingTcpTransport:
         if self.tcp_socket:
             # only disconnect if there is a socket.
             try:
-                self.tcp_socket.shutdown(socket.SHUT_RDWR)
-                self.tcp_socket.close()
+                try:
+                    self.tcp_socket.shutdown(socket.SHUT_RDWR)
+                finally:
+                    self.tcp_socket.close()
             except (OSError, IOError, socket.timeout, socket.error) as e:
                 self.tcp_socket = None
                 raise exceptions.CommunicationError from e
-- 
2.43.0


From 8d395ec1b072d2e02d13ba84985f02f024ef9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 03/23] fix: send request addresses little-endian

Every other multi byte field of a frame, and the addresses of every frame that
is decoded, are little-endian. A request for address 0x0102 went to 0x0201.
---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From 2efa3f101535e2c0f1f69c2c16603247389d47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/23] fix: decode all four bytes of the oldest record id in
 archive responses

---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From 12a657b8ec434d80319d5c39ef30d97f4b286bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 05/23] fix: raise for device errors that combine several bits

Each bit of the one byte error response is an error of its own. A response with
more than one bit set raised nothing, so write_time() reported success.
---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..d8aafca 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From fca792332365fcc04f598c9e03b1f36ab5c17b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 06/23] fix: do not await the response to a request that could
 not be encoded

The state changed before the request was encoded, so a value that can not be
encoded left the connection waiting for a response to a request never sent.
---
 elgas/connection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index d8aafca..8aa42fe 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -108,7 +108,16 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
+        previous_state = self.elgas_state.current_state
         self.elgas_state.process_event(event)
+        try:
+            return self._encode(event)
+        except BaseException:
+            # Nothing will be sent so there is no response to wait for.
+            self.elgas_state.current_state = previous_state
+            raise
+
+    def _encode(self, event) -> bytes:
         application_data = event.to_bytes()
 
         if self.cipher_context:
-- 
2.43.0


From 504966b003bdbfc96fe95da527753ed73818c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 07/23] fix: drop a line that is not a valid frame from the
 receive buffer

A corrupt line, or one that raised, stayed first in the buffer and was looked
at again and again, so no later response could ever be received.
---
 elgas/connection.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 8aa42fe..4ab6db1 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -167,7 +167,16 @@ class ElgasConnection:
             )
 
     def next_event(self) -> bytes:
+        event = None
+        while event is None:
+            event = self._next_event()
+        return event
 
+    def _next_event(self) -> Optional[bytes]:
+        """
+        Handle the first line in the buffer. None means that it was not a valid frame
+        and has been dropped.
+        """
         if not self.buffer:
             LOG.debug("Buffer empty. Need more data")
             return state.NEED_DATA
@@ -181,6 +190,7 @@ class ElgasConnection:
             return state.NEED_DATA
 
         data = self.buffer[:end_char_index]
+        del self.buffer[:end_char_index]
         try:
             response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
 
@@ -194,8 +204,8 @@ class ElgasConnection:
                 raise_error(response.data)
 
         except ValueError:
-            LOG.debug("Cannot interpret data as frame. Need more data")
-            return state.NEED_DATA
+            LOG.debug("Cannot interpret data as frame. Dropping it", data=data)
+            return None
 
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
-- 
2.43.0


From 5226ff93f65e8d1f6c05019ad8c8256c55c03126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 08/23] fix: a device error ends the request it answers

The connection kept waiting for the response to the failed request, and refused
to send anything else.
---
 elgas/connection.py | 8 +++++++-
 elgas/state.py      | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 4ab6db1..a4e411f 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -201,7 +201,13 @@ class ElgasConnection:
                 LOG.debug("Decrypted ELGAS response", decrypted=response)
 
             if len(response.data) == 1:
-                raise_error(response.data)
+                try:
+                    raise_error(response.data)
+                except exceptions.ElgasError:
+                    self.elgas_state.process_error(
+                        ResponsePduFactory.service_map.get(response.service)
+                    )
+                    raise
 
         except ValueError:
             LOG.debug("Cannot interpret data as frame. Dropping it", data=data)
diff --git a/elgas/state.py b/elgas/state.py
index 483e7fd..7cc3905 100644
--- a/elgas/state.py
+++ b/elgas/state.py
@@ -92,3 +92,11 @@ class ElgasState:
         old_state = self.current_state
         self.current_state = new_state
         LOG.debug(f"Elgas state transitioned from {old_state} to {new_state}")
+
+    def process_error(self, response_type):
+        """
+        The device answered with an error instead of a response of this type.
+        """
+        if response_type in ELGAS_STATE_TRANSITIONS[self.current_state]:
+            LOG.debug(f"Request failed when state={self.current_state}")
+            self.current_state = IDLE
-- 
2.43.0


From 5b6d11c920676d0cb3d1cc81f5e9d381a908b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 09/23] fix: start from a clean protocol state on connect

After a communication failure the client still waited for the lost response, so
not even a new connection could be used.
---
 elgas/client.py     | 1 +
 elgas/connection.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/elgas/client.py b/elgas/client.py
index 5db6480..de5d896 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -39,6 +39,7 @@ class ElgasClient:
 
     def connect(self):
         self.transport.connect()
+        self.elgas_connection.reset()
 
     def disconnect(self):
         self.transport.disconnect()
diff --git a/elgas/connection.py b/elgas/connection.py
index a4e411f..343d7df 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -147,6 +147,14 @@ class ElgasConnection:
         escaped_data = utils.escape_characters(frame_data)
         return escaped_data
 
+    def reset(self):
+        """
+        Forget any request in progress and received data. To be used when the
+        underlying transport is connected anew.
+        """
+        self.buffer = bytearray()
+        self.elgas_state.current_state = state.IDLE
+
     def receive_data(self, data: bytes):
         """
         Add data into the receive buffer. Also deescape the data so correct data is in
-- 
2.43.0


From 80ca5974756850495d373b7befcdcd880c2bfb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 10/23] fix: read_parameters() only accepts the page it asked
 for

A late page of objects was added once more, or in the wrong place, and an empty
page that is not the last made it ask for the same page forever.
---
 elgas/client.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/elgas/client.py b/elgas/client.py
index de5d896..98d34c8 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -4,7 +4,16 @@ from typing import *
 import attr
 import structlog
 
-from elgas import application, connection, constants, parser, state, transport, utils
+from elgas import (
+    application,
+    connection,
+    constants,
+    exceptions,
+    parser,
+    state,
+    transport,
+    utils,
+)
 
 LOG = structlog.get_logger("client")
 
@@ -97,6 +106,15 @@ class ElgasClient:
             self.send(request)
             response: application.ReadDeviceParametersResponse = self.next_event()
             LOG.info("Received device parameters", object_amount=response.object_amount)
+            if response.object_number != object_count:
+                raise exceptions.LocalElgasProtocolError(
+                    f"Got parameters from object {response.object_number} when "
+                    f"requesting from object {object_count}"
+                )
+            if not response.object_amount and not response.is_end:
+                raise exceptions.LocalElgasProtocolError(
+                    "Got no parameters but there should be more available"
+                )
             total_parameter_data += response.data
             should_stop = response.is_end
             object_count += response.object_amount
-- 
2.43.0


From 00eeea88210f5c287d448153694e2c3b409f237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 11/23] fix: parse correction counters and difference base
 counters

CorrectionCounter was never registered and DifferenceBaseCounter had no
from_bytes(), so a device with one of them had no readable parameters at all.
---
 elgas/parameters/difference_counter.py | 2 +-
 elgas/parameters/factory.py            | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/elgas/parameters/difference_counter.py b/elgas/parameters/difference_counter.py
index 3938125..df46928 100644
--- a/elgas/parameters/difference_counter.py
+++ b/elgas/parameters/difference_counter.py
@@ -83,7 +83,7 @@ class DifferenceCounter:
         )
 
 
-class DifferenceBaseCounter:
+class DifferenceBaseCounter(DifferenceCounter):
     object_type: ClassVar[
         ParameterObjectType
     ] = ParameterObjectType.DIFFERENCE_BASE_COUNTER
diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From 99b2ef2a6058e80c0f40f79038e077739764cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 12/23] fix: do not show a password that cannot be encoded in
 the exception

---
 elgas/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..9949dc4 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -174,6 +174,9 @@ def pad_password(password: str):
     4 characters are insignificant.
     """
     possible_chars = "abcdefghijklmnopqrstuvxyzABCDEFGHIJKLMNOPQRSTUVXYZ0123456789"
+    if any(ord(char) > 0xFF for char in password):
+        # The error of encoding it would show the password.
+        raise ValueError("Password contains characters that are not latin-1")
     two_random = random.choices(possible_chars, k=2)
     # return password + "".join(four_random)
     return password + "!\x03" + "".join(two_random)
-- 
2.43.0


From 783f4790b4d635032794551cacb6c26f5552edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 13/23] fix: refuse times outside the years that can be encoded

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 9949dc4..2432f72 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -215,6 +215,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"Only years 2000-2099 can be encoded, got {timestamp.year}")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From 817242ef3a16973c8f7163360b4ea3a10aaddfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:04 +0000
Subject: [PATCH 14/23] fix: an encryption key without a key id sends
 everything in clear

---
 elgas/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 343d7df..c481ba2 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -37,8 +37,11 @@ def create_cipher_context(
     """
     If both encryption key and encryption key id is set then return a cipher context
     """
-    if connection.encryption_key is None or connection.encryption_key_id is None:
+    if connection.encryption_key is None:
         return None
+    elif connection.encryption_key_id is None:
+        # Without a cipher context everything would be sent in clear.
+        raise ValueError("An encryption key needs an encryption key id")
     else:
         return security.CipherContext(
             connection.encryption_key_id, connection.encryption_key
-- 
2.43.0


From fe47b3f0370ded23a8c976aef08aff5fc3ac67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 15/23] fix: host names that cannot be looked up raise
 UnicodeError when connecting

---
 elgas/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elgas/transport.py b/elgas/transport.py
index c513baf..4736d22 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -98,6 +98,7 @@ class BlockingTcpTransport:
             socket.timeout,
             socket.error,
             ConnectionRefusedError,
+            UnicodeError,  # host names that cannot be encoded for the lookup
         ) as e:
             raise exceptions.CommunicationError("Unable to connect socket") from e
         LOG.info(f"Connected to {self.address}")
-- 
2.43.0


From e01c4b292aa64bd180f3da67efee8ab650784365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 16/23] fix: a serial port that fails while it is set up raises
 termios.error

---
 elgas/transport.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elgas/transport.py b/elgas/transport.py
index 4736d22..1e98f0a 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -8,6 +8,12 @@ import structlog
 
 from elgas import exceptions
 
+try:
+    # pyserial lets it through when a port fails while it is set up.
+    from termios import error as TerminalError
+except ImportError:  # not on this platform
+    TerminalError = serial.SerialException
+
 LOG = structlog.get_logger("transport")
 
 
@@ -208,6 +214,7 @@ class SerialTransport:
             OSError,
             IOError,
             serial.SerialException,
+            TerminalError,
         ) as e:
             raise exceptions.CommunicationError("Unable to connect socket") from e
         LOG.info(f"Connected to {self.port}")
-- 
2.43.0


From bb88625e0069c14079475a66d033825d93571259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:56 +0000
Subject: [PATCH 17/23] fix: sending on a serial port that takes no data never
 ends

---
 elgas/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elgas/transport.py b/elgas/transport.py
index 1e98f0a..1a9d52a 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -209,6 +209,7 @@ class SerialTransport:
                 port=self.port,
                 baudrate=self.baud_rate,
                 timeout=self.timeout,
+                write_timeout=self.timeout,
             )
         except (
             OSError,
-- 
2.43.0


From 86858e7a0930a0f5cdf3feaa005383cd8800fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 18/23] fix: error standard counters, set points and modems are
 not loaded back as objects

---
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From 173602bf46203d413ae91e275dd48fddc80ef679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:26 +0000
Subject: [PATCH 19/23] fix: a flow rate without decimals cannot be loaded back

---
 elgas/parameters/flow_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 8be8fbc6813ae16031c0ebd93f70ec4497ef2682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:17 +0000
Subject: [PATCH 20/23] fix: the texts of a device error cannot be converted to
 JSON

---
 elgas/parameters/device_error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..aabd5ee 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -85,8 +85,8 @@ class DeviceErrorSchema(marshmallow.Schema):
     error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
     error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 1783d14012c0917e80e8874482a2ac8845865592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 21/23] fix: passwords that are not six characters long move
 the fields of a request

---
 elgas/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 2432f72..bafeb62 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -177,6 +177,10 @@ def pad_password(password: str):
     if any(ord(char) > 0xFF for char in password):
         # The error of encoding it would show the password.
         raise ValueError("Password contains characters that are not latin-1")
+    if len(password) > 6:
+        raise ValueError("Password is longer than 6 characters")
+    # A shorter one must not move the fields that follow it.
+    password = password.ljust(6, "\x00")
     two_random = random.choices(possible_chars, k=2)
     # return password + "".join(four_random)
     return password + "!\x03" + "".join(two_random)
-- 
2.43.0


From bd102aafe8ea48151e14e58421c5c26779caba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:14 +0000
Subject: [PATCH 22/23] fix: refuse an object whose length is impossible or
 reaches beyond the end of the configuration

---
 elgas/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..8054532 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -34,6 +34,11 @@ class ScadaParameterParser:
             object_type = elgas.parameters.enumerations.ParameterObjectType(
                 working_data.pop(0)
             )
+            if not 0 <= length - 3 <= len(working_data):
+                raise ValueError(
+                    f"Object of length {length} does not fit, got {len(working_data)}"
+                    f" bytes after its length and type"
+                )
             data = working_data[: length - 3]
             object_list.append(
                 elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
-- 
2.43.0


From 9610326e77cdb3fb3086291b33c031f268b9b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:14 +0000
Subject: [PATCH 23/23] fix: refuse archive and actual values answers that are
 too short for their fields

---
 elgas/application.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..f0447d4 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -54,6 +54,9 @@ class ReadInstantaneousValuesResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 25:
+            # What is at the end would be read from what is at the beginning.
+            raise ValueError(f"{len(in_bytes)} bytes are too few for actual values")
         data = in_bytes
         current_time, is_dst, supports_dst = utils.bytes_to_datetime(data[:6])
         data = data[6:]
@@ -252,6 +255,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError(f"{len(in_bytes)} bytes are too few for archive records")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +300,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError(f"{len(in_bytes)} bytes are too few for archive records")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0

