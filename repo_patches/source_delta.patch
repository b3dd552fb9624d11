From c63365aee7d4094a809b2d9d9e09ff521ae78b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:27 +0000
Subject: [PATCH 01/35] fix: reassemble messages split between TCP segments and
 keep the ones preceding invalid data

---
 pyown/protocol/protocol.py | 53 ++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..aa737a0 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -1,9 +1,10 @@
 import asyncio
 import logging
+import re
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidMessage, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -12,6 +13,9 @@ __all__ = [
 
 log = logging.getLogger("pyown.protocol")
 
+# What can still become a message when more data arrives
+_MESSAGE_START = re.compile(r"\s*(?:\*[0-9*#]*)?")
+
 
 class OWNProtocol(Protocol):
     """Asyncio protocol for the OpenWebNet TCP connection.
@@ -40,6 +44,9 @@ class OWNProtocol(Protocol):
         # The queue was chosen because it supports both synchronous and asynchronous functions
         self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
 
+        # Data received that does not make a complete message yet
+        self._buffer: bytes = b""
+
         self._lock = Lock()
 
     def connection_made(self, transport: BaseTransport):
@@ -70,30 +77,38 @@ class OWNProtocol(Protocol):
         Args:
             data (bytes): The incoming data
         """
+        # A packet can contain multiple messages, and a message can be split between multiple packets
+        *frames, self._buffer = (self._buffer + data).split(b"##")
+
+        for frame in frames:
+            text = self._decode(frame)
+            if not text:
+                continue
+
+            try:
+                msg = parse_message(text + "##")
+            except ParseError as e:
+                log.warning(f"Received invalid message: {e}")
+                raise e
+
+            log.debug(f"Received message: {msg}")
+            self._messages_queue.put_nowait(msg)
+
+        # What remains must be the start of a message, otherwise it will never become valid
+        text = self._decode(self._buffer)
+        if _MESSAGE_START.fullmatch(text) is None:
+            log.warning(f"Received invalid data: {text}")
+            raise InvalidMessage(text)
+
+    @staticmethod
+    def _decode(data: bytes) -> str:
         # In OpenWebNet, the message is always written with ascii characters
         try:
-            text = data.decode("ascii").strip()
+            return data.decode("ascii").strip()
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
             raise e
 
-        # Sometimes multiple messages can be sent in the same packet
-        try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
-        except ParseError as e:
-            log.warning(f"Received invalid message: {e}")
-            raise e
-
-        # If there are no messages, return
-        if not messages:
-            return
-
-        log.debug(f"Received messages: {messages}")
-
-        # Call the on_message_received future
-        for msg in messages:
-            self._messages_queue.put_nowait(msg)
-
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
         self._lock.acquire()
-- 
2.43.0


From d3ee0a18bf43971db47bf4548d78728397ada4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:44 +0000
Subject: [PATCH 02/35] fix: parse messages with an unknown WHO as generic
 messages as documented

---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..04ece48 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # The WHO tag is unknown
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From 5115c57d17a34fe4138419c8c56666464276d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 03/35] fix: validate messages in linear time

---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 04ece48..23652ea 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From c65a93babc1494cf4703862166efb133a7707f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:22 +0000
Subject: [PATCH 04/35] fix: recognise dimension requests and writings with
 parameters

---
 pyown/messages/dimension.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..b227eda 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,9 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?##$"
+    )
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
@@ -61,7 +63,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
@@ -90,7 +92,8 @@ class DimensionWriting(BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        values = "".join(f"*{value}" for value in self.values)
+        return f"*#{self.who}*{self.where}*#{self.dimension}{values}##"
 
     @classmethod
     def parse(cls, tags: list[str]) -> Self:
@@ -116,10 +119,11 @@ class DimensionResponse(DimensionWriting, BaseMessage):
 
     _type: MessageType = MessageType.DIMENSION_RESPONSE
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?(?:\*[0-9]*(?:#[0-9]*)*)+##$"
     )
 
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        values = "".join(f"*{value}" for value in self.values)
+        return f"*#{self.who}*{self.where}*{self.dimension}{values}##"
-- 
2.43.0


From 22a8e61197108cc9de2d90a6e5f5f017b7096c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:42 +0000
Subject: [PATCH 05/35] fix: do not wait forever to send on a connection that
 was paused and then closed

---
 pyown/protocol/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index aa737a0..8032ebf 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -130,7 +130,8 @@ class OWNProtocol(Protocol):
         data = msg.bytes
 
         # block multiple messages from being sent at the same time
-        while self._lock.locked():
+        # a closed connection will never resume writing
+        while self._lock.locked() and not self._transport.is_closing():
             await asyncio.sleep(delay)
 
         self._transport.write(data)
-- 
2.43.0


From e382096c81cc1799708a29683cec8b0b02cf28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:45 +0000
Subject: [PATCH 06/35] fix: end the event loop when the connection is dropped
 or closed

---
 pyown/client/base.py       |  2 +-
 pyown/client/client.py     |  5 ++++-
 pyown/protocol/protocol.py | 18 ++++++++++++++----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..7e20f87 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -230,7 +230,7 @@ class BaseClient(ABC):
 
         Raises:
             TimeoutError: if the server does not respond in the given time.
-            InvalidSession: if the client is not started.
+            InvalidSession: if the client is not started or the connection is closed.
         """
         if self._protocol is None:
             raise InvalidSession("Client not started")
diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..016e135 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -112,13 +112,16 @@ class Client(BaseClient):
             client = self
 
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        while True:
             try:
                 # by putting timeout as None, it will wait indefinitely for a message
                 message = await self.read_message(timeout=None)
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
+            except InvalidSession:
+                log.info("Connection closed, stopping the loop")
+                break
 
             # ignore status messages
             if message.type == MessageType.ACK or message.type == MessageType.NACK:
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 8032ebf..3bd8ff5 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -4,7 +4,7 @@ import re
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import InvalidMessage, ParseError
+from ..exceptions import InvalidMessage, InvalidSession, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -42,7 +42,8 @@ class OWNProtocol(Protocol):
         self._on_connection_end: Future[Exception | None] = on_connection_end
 
         # The queue was chosen because it supports both synchronous and asynchronous functions
-        self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
+        # None marks the end of the connection
+        self._messages_queue: Queue[BaseMessage | None] = asyncio.Queue()
 
         # Data received that does not make a complete message yet
         self._buffer: bytes = b""
@@ -63,6 +64,8 @@ class OWNProtocol(Protocol):
             log.info(f"Connection lost with exception: {exc}")
         else:
             log.info("Connection lost")
+        # Wake up who is waiting for a message
+        self._messages_queue.put_nowait(None)
         if exc is None:
             self._on_connection_end.set_result(None)
         else:
@@ -142,6 +145,13 @@ class OWNProtocol(Protocol):
 
         Returns:
             BaseMessage: The message from the server, it will be a subclass of BaseMessage
+
+        Raises:
+            InvalidSession: if the connection ended and all the messages were already read
         """
-        messages = await self._messages_queue.get()
-        return messages
+        message = await self._messages_queue.get()
+        if message is None:
+            # Leave the mark for the next reader
+            self._messages_queue.put_nowait(None)
+            raise InvalidSession("Connection closed")
+        return message
-- 
2.43.0


From d8d82d5ceb5bb48c8f95f527912493cad37ac831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 07/35] fix: allow a client to be started again after its
 connection ended

---
 pyown/client/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 7e20f87..b9f33eb 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -85,6 +85,10 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        # Every connection needs its own futures because they can be completed only once
+        self._on_connection_start = self._loop.create_future()
+        self._on_connection_end = self._loop.create_future()
+
         try:
             self._transport, self._protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
-- 
2.43.0


From b9b6ca69a0a9429a5370f57bae812e4fb752c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:54 +0000
Subject: [PATCH 08/35] fix: close the connection when the handshake fails

---
 pyown/client/base.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index b9f33eb..bcd8796 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -101,12 +101,22 @@ class BaseClient(ABC):
         except OSError:
             raise TimeoutError("Could not connect to the server")
 
-        # Wait for the connection to start
-        await self._on_connection_start
+        try:
+            # Wait for the connection to start
+            await self._on_connection_start
+
+            log.debug("Connection started")
+
+            await self._handshake()
+        except BaseException:
+            # Do not leave a connection that can't be used open
+            await self.close()
+            raise
 
-        log.debug("Connection started")
+        log.info("Client ready")
 
-        # Handshake
+    async def _handshake(self) -> None:
+        """Does the initial handshake with the gateway."""
         # The first packet is from the server, and it's an ACK packet
         # The second packet is from the client and set the session type
         # Wait for the first packet
@@ -140,8 +150,6 @@ class BaseClient(ABC):
         else:
             raise InvalidAuthentication("Invalid authentication response")
 
-        log.info("Client ready")
-
     async def _authenticate_open(self, nonce: str) -> None:
         """Authenticates the client using the open authentication algorithm.
 
-- 
2.43.0


From 5d18b901c817323171de6201d23d75e51e226462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:57 +0000
Subject: [PATCH 09/35] fix: make the HMAC authentication follow the documented
 handshake

---
 pyown/auth/hmac.py   | 22 ++++++----------------
 pyown/client/base.py | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 1dc0b96..e939aa5 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -1,5 +1,5 @@
 from hashlib import sha1, sha256
-from hmac import HMAC, compare_digest
+from hmac import compare_digest
 from secrets import token_bytes
 
 from .enum import AuthAlgorithm
@@ -45,13 +45,8 @@ def client_hmac(
     kab = hash_function(password.encode()).hexdigest()
     hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
 
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
-
-    return hmac.digest()
+    # the protocol calls HMAC what actually is a plain hash of the concatenated values
+    return hash_function(hmac_message.encode()).digest()
 
 
 def server_hmac(
@@ -79,15 +74,10 @@ def server_hmac(
         raise ValueError("Invalid hash algorithm")
 
     kab = hash_function(password.encode()).hexdigest()
-    hmac_message = f"{client_key}{server_key}{kab}"
-
-    hmac = HMAC(
-        key=server_key.encode(),
-        msg=hmac_message.encode(),
-        digestmod=hash_function,
-    )
+    hmac_message = f"{server_key}{client_key}{kab}"
 
-    return hmac.digest()
+    # the protocol calls HMAC what actually is a plain hash of the concatenated values
+    return hash_function(hmac_message.encode()).digest()
 
 
 def compare_hmac(
diff --git a/pyown/client/base.py b/pyown/client/base.py
index bcd8796..4b931da 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -182,7 +183,7 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        server_key = self._parse_hash(resp)
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -203,7 +204,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -212,11 +213,19 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(server_auth.hex().encode(), self._parse_hash(resp).encode()):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
 
+    @staticmethod
+    def _parse_hash(message: BaseMessage) -> str:
+        """Returns the hex string sent by the server in a `*#digits##` message."""
+        try:
+            return digits_to_hex(str(message.tags[0]).removeprefix("#"))
+        except (ValueError, IndexError):
+            raise InvalidAuthentication("Invalid authentication response")
+
     async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
         """Sends a message to the server.
 
-- 
2.43.0


From d15d50c4212ecc9c4db226f4246322e8b7cecce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:38 +0000
Subject: [PATCH 10/35] fix: report a non numeric password as an authentication
 error

---
 pyown/client/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 4b931da..bc9fec3 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -157,7 +157,10 @@ class BaseClient(ABC):
         Args:
             nonce (str): The nonce sent by the server
         """
-        enc = own_calc_pass(self._password, nonce)
+        try:
+            enc = own_calc_pass(self._password, nonce)
+        except ValueError:
+            raise InvalidAuthentication("The open authentication requires a numeric password")
 
         await self.send_message(GenericMessage(["#" + enc]), force=True)
         resp = await self.read_message()
-- 
2.43.0


From 4d447decdd3304eb659965229e56722eca4e1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:41 +0000
Subject: [PATCH 11/35] fix: do not keep using the previous connection when a
 client is started again

---
 pyown/client/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index bc9fec3..e3e49f0 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -86,6 +86,9 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond
             InvalidSession: if the server requires an unknown authentication algorithm
         """
+        # Forget the previous connection
+        await self.close()
+
         # Every connection needs its own futures because they can be completed only once
         self._on_connection_start = self._loop.create_future()
         self._on_connection_end = self._loop.create_future()
-- 
2.43.0


From 6934fb847b4b48e15f4e206ae615666c6c1d8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:44 +0000
Subject: [PATCH 12/35] fix: pair every command with its own response

---
 pyown/client/base.py         | 20 ++++++++-
 pyown/items/base.py          | 79 +++++++++++++++++++++---------------
 pyown/items/camera/camera.py |  5 +--
 pyown/protocol/protocol.py   |  9 ++++
 4 files changed, 75 insertions(+), 38 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index e3e49f0..d4ef579 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -1,8 +1,9 @@
 import asyncio
 import logging
 from abc import ABC, abstractmethod
-from asyncio import AbstractEventLoop, Future, Transport
-from typing import Any, Optional
+from asyncio import AbstractEventLoop, Future, Lock, Transport
+from contextlib import asynccontextmanager
+from typing import Any, AsyncIterator, Optional
 
 from ..auth import AuthAlgorithm
 from ..auth.hmac import (
@@ -62,6 +63,8 @@ class BaseClient(ABC):
         self._transport: Optional[Transport] = None
         self._protocol: Optional[OWNProtocol] = None
 
+        self._exchange_lock = Lock()
+
         self._loop = loop or asyncio.get_event_loop()
         self._loop.set_exception_handler(self._exception_handler)
 
@@ -267,6 +270,19 @@ class BaseClient(ABC):
 
         return message
 
+    @asynccontextmanager
+    async def exchange(self) -> AsyncIterator[None]:
+        """Reserves the session for sending a command and reading its response.
+
+        The messages do not say to which command they respond. So, only one command at a time can wait for its response,
+        and the messages received before the command is sent (like the response to a command that was interrupted)
+        are discarded.
+        """
+        async with self._exchange_lock:
+            if self.is_cmd_session() and self._protocol is not None:
+                self._protocol.discard_messages()
+            yield
+
     async def close(self) -> None:
         """Close the client."""
         if self._transport is not None:
diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2f820b2..9662a9a 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -122,6 +122,49 @@ class BaseItem(ABC):
         """
         return await self._client.read_message(timeout=timeout)
 
+    async def _send_command(self, message: BaseMessage) -> None:
+        """Sends a message to the server and checks that it is acknowledged.
+
+        Args:
+            message: The message to send.
+
+        Raises:
+            ResponseError: If the server does not acknowledge the message.
+        """
+        async with self._client.exchange():
+            await self._send_message(message)
+            resp = await self._read_message()
+
+        self._check_ack(resp)
+
+    async def _send_request(self, message: BaseMessage) -> list[BaseMessage]:
+        """Sends a message to the server and reads all the responses until the final ACK.
+
+        Args:
+            message: The message to send.
+
+        Returns:
+            The responses, without the final ACK.
+
+        Raises:
+            ResponseError: If the server responds with a NACK.
+        """
+        responses: list[BaseMessage] = []
+
+        async with self._client.exchange():
+            await self._send_message(message)
+
+            while True:
+                resp = await self._read_message()
+                self._check_nack(resp)
+
+                # when the server responds with an ACK message,
+                # it means that the server has finished sending the responses
+                if resp.type == MessageType.ACK:
+                    return responses
+
+                responses.append(resp)
+
     @staticmethod
     def _check_ack(resp: BaseMessage) -> None:
         """Checks if the response is an ACK message.
@@ -206,11 +249,7 @@ class BaseItem(ABC):
         Raises:
             ResponseError: If the server does not acknowledge the message.
         """
-        msg = self.create_normal_message(what)
-        await self._send_message(msg)
-
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(self.create_normal_message(what))
 
     async def send_status_request(self) -> AsyncIterator[NormalMessage]:
         """Sends a status request and receive multiple responses from the server.
@@ -221,17 +260,7 @@ class BaseItem(ABC):
         Returns:
             The responses from the server.
         """
-        msg = self.create_status_message()
-        await self._send_message(msg)
-
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
-
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
-
+        for resp in await self._send_request(self.create_status_message()):
             if not isinstance(resp, NormalMessage):
                 raise ResponseError(f"Received {resp} instead of a normal message")
 
@@ -251,17 +280,7 @@ class BaseItem(ABC):
         if isinstance(dimension, str):
             dimension = Dimension(dimension)
 
-        msg = self.create_dimension_request_message(dimension)
-        await self._send_message(msg)
-
-        while True:
-            resp = await self._read_message()
-            self._check_nack(resp)
-
-            # when the server responds with an ACK message, it means that the server has finished sending the responses
-            if resp.type == MessageType.ACK:
-                break
-
+        for resp in await self._send_request(self.create_dimension_request_message(dimension)):
             if not isinstance(resp, DimensionResponse):
                 raise ResponseError(f"Received {resp} instead of a dimension response message")
 
@@ -280,11 +299,7 @@ class BaseItem(ABC):
         if isinstance(dimension, str):
             dimension = Dimension(dimension)
 
-        msg = self.create_dimension_writing_message(dimension, *args)
-        await self._send_message(msg)
-
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(self.create_dimension_writing_message(dimension, *args))
 
     # TODO: Refactor this method
     async def _single_dim_req(self, what: What | Dimension) -> DimensionResponse:
diff --git a/pyown/items/camera/camera.py b/pyown/items/camera/camera.py
index feb495d..0fde963 100644
--- a/pyown/items/camera/camera.py
+++ b/pyown/items/camera/camera.py
@@ -153,10 +153,7 @@ class Camera(BaseItem):
         Args:
             what: The WHAT command to send.
         """
-        msg = GenericMessage([str(self._who), str(what)])
-        await self._send_message(msg)
-        resp = await self._read_message()
-        self._check_ack(resp)
+        await self._send_command(GenericMessage([str(self._who), str(what)]))
 
     async def free_resources(self):
         """Frees audio and video resources.
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 3bd8ff5..3f69f45 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -140,6 +140,15 @@ class OWNProtocol(Protocol):
         self._transport.write(data)
         log.debug(f"Sent message: {msg}")
 
+    def discard_messages(self):
+        """Discards the messages already received, but not the end of the connection."""
+        while not self._messages_queue.empty():
+            message = self._messages_queue.get_nowait()
+            if message is None:
+                self._messages_queue.put_nowait(None)
+                break
+            log.debug(f"Discarded message: {message}")
+
     async def receive_messages(self) -> BaseMessage:
         """Awaits a message from the server and returns it.
 
-- 
2.43.0


From b8b3a6eba88850e3ca06603627689bd7705d0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:13 +0000
Subject: [PATCH 13/35] fix: do not stop the event loop when an item has an
 unsupported where

---
 pyown/client/client.py       | 3 +++
 pyown/items/energy/energy.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 016e135..88c2e96 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -142,6 +142,9 @@ class Client(BaseClient):
             except KeyError:
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
+            except InvalidTag as e:
+                log.warning(f"Item not supported, WHO={who}, WHERE={where}: {e}")
+                continue
 
             await self._dispatch_callbacks(item, message)
 
diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..77c1eea 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters[:1] == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From eee9ac08d2f85af7787de80ade28f4097689c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:51 +0000
Subject: [PATCH 14/35] fix: pass the gateway values to the callbacks without
 splitting the strings

---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..d00a806 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -506,10 +506,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From 11fcd6fb22d876e3fe5a88a05e22f12f4f6159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:54 +0000
Subject: [PATCH 15/35] fix: encode the timezone of the gateway as documented,
 also when it is negative

---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index d00a806..a472b64 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = abs(tz) // datetime.timedelta(hours=1)
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From acca474e640883464a8c28399c8343e73620e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 16/35] fix: send the day of the week when setting the date and
 time of the gateway

---
 pyown/items/gateway/gateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index a472b64..0cf9941 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -399,8 +399,10 @@ class Gateway(BaseItem):
         d = Value(f"{bus_time.day:02d}")
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
+        # the day of the week, 00 is Sunday
+        w = Value(f"{bus_time.isoweekday() % 7:02d}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From e22c1040077146701134444d51c983a5582803c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:59 +0000
Subject: [PATCH 17/35] fix: convert the MAC address of the gateway from
 decimal

---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 0cf9941..b32a95e 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -276,8 +276,8 @@ class Gateway(BaseItem):
 
         oct1, oct2, oct3, oct4, oct5, oct6 = resp.values
 
-        mac = f"{oct1.string}:{oct2.string}:{oct3.string}:{oct4.string}:{oct5.string}:{oct6.string}"
-        return mac
+        # the octets are sent as decimal numbers
+        return ":".join(f"{int(o.string):02X}" for o in (oct1, oct2, oct3, oct4, oct5, oct6))
 
     async def get_netinfo(self) -> ipaddress.IPv4Network:
         """Combines the net mask and the IP address to get the network info.
-- 
2.43.0


From 600e3c266a306ee37b49895153ee7129d682dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:12 +0000
Subject: [PATCH 18/35] fix: dispatch the energy events with parameters as
 documented

---
 pyown/items/energy/energy.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 77c1eea..fdf3ea4 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,7 +553,11 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        try:
+            dim = DimensionEnergy(message.dimension.tag)
+        except ValueError:
+            raise InvalidMessage(message.message)
+        params = message.dimension.parameters
 
         tasks = []
         callbacks = cls._event_callbacks.get(dim, [])
@@ -561,22 +565,23 @@ class EnergyManagement(BaseItem):
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
+            day = int(params[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
@@ -607,8 +612,8 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.ENERGY_UNIT_PER_MONTH:
-            month = int(dim.parameters[1])
-            year = int(dim.parameters[0])
+            month = int(params[1])
+            year = int(params[0])
             energy = float(message.values[0].string)
             args = (item, month, year, energy)
         elif dim.tag == DimensionEnergy.PARTIAL_TOTALIZER_CURRENT_MONTH:
@@ -618,8 +623,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(params[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From 8dd9ef970b445e02a4f425ef36612d3d714e7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:14 +0000
Subject: [PATCH 19/35] fix: request the energy of the documented period, read
 from the clock only once

---
 pyown/items/energy/energy.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index fdf3ea4..9087a81 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -75,13 +75,15 @@ class EnergyManagement(BaseItem):
         Raises:
             ResponseError: When the gateway does not acknowledge the command
         """
+        # read the clock only once, otherwise the day and the month can belong to different dates
+        now = datetime.now()
         if day is None:
-            day = datetime.now().day
+            day = now.day
         if month is None:
-            month = datetime.now().month
+            month = now.month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
@@ -246,10 +248,12 @@ class EnergyManagement(BaseItem):
         Raises:
             ResponseError: When the gateway does not respond with the requested data
         """
+        # read the clock only once, otherwise the month and the year can belong to different dates
+        now = datetime.now()
         if month is None:
-            month = datetime.now().month
+            month = now.month
         if year is None:
-            year = datetime.now().year % 100
+            year = now.year % 100
 
         message = await self._single_dim_req(
             DimensionEnergy.ENERGY_UNIT_PER_MONTH.with_parameter(year).with_parameter(month)
-- 
2.43.0


From 9e65d5cb75f0e2dcea8b207c700af53e5a7f3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:17 +0000
Subject: [PATCH 20/35] fix: read the bits of the Stop&Go status in the
 documented order

---
 pyown/items/energy/energy.py  | 28 +++++++++++++++-------------
 pyown/items/energy/stop_go.py |  2 ++
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 9087a81..7e039a2 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -590,20 +590,22 @@ class EnergyManagement(BaseItem):
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
+            # the last character is the first bit
+            bits = message.values[0].string[::-1]
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(int(bits[0])),
+                failure=bool(int(bits[1])),
+                block=bool(int(bits[2])),
+                open_cc=bool(int(bits[3])),
+                open_ground_fault=bool(int(bits[4])),
+                open_vmax=bool(int(bits[5])),
+                self_test_off=bool(int(bits[6])),
+                auto_reset_off=bool(int(bits[7])),
+                check_off=bool(int(bits[8])),
+                waiting_closing=bool(int(bits[9])),
+                first_24h_open=bool(int(bits[10])),
+                power_fail_down=bool(int(bits[11])),
+                power_fail_up=bool(int(bits[12])),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..8093870 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -77,6 +77,8 @@ class StopGo(EnergyManagement):
             match dim:
                 case DimensionEnergy.STATUS_STOP_GO_GENERAL:
                     # in this case we have a value containing a 13-bit bitmask with each bit representing one attribute
+                    # the bits are written as characters, from the last one to the first one
+                    val = int(msg.values[0].string, 2)
                     status.open = bool(val & 0x01)  # bit 1
                     status.failure = bool(val & 0x02)  # bit 2
                     status.block = bool(val & 0x04)  # bit 3
-- 
2.43.0


From ff687164ac30acc79824c82cb1a2ccaef3ff1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:19 +0000
Subject: [PATCH 21/35] fix: read the actuator info from its separate values

---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 7e039a2..d17fc05 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -306,12 +306,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=not bool(int(message.values[5].string) - 1),
         )
 
     async def get_totalizers(
-- 
2.43.0


From 456a79030cdcc9fece5f4b9045e9a5ca8ad3ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:01 +0000
Subject: [PATCH 22/35] fix: call the light callbacks for the documented
 dimensions

---
 pyown/items/lighting/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..c4fc224 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -231,7 +231,7 @@ class BaseLight(BaseItem, ABC):
         tasks: list[Task] = []
 
         if isinstance(message, DimensionResponse):
-            if message.dimension.tag == "1":
+            if message.dimension.tag == "2":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
@@ -239,7 +239,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "1":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
@@ -254,7 +254,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
-- 
2.43.0


From 9cde9f01e594877f89a90d6538ada90506914da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:03 +0000
Subject: [PATCH 23/35] fix: use the documented dimensions for the working time
 and the white temperature of the lights

---
 pyown/items/lighting/base.py   | 2 +-
 pyown/items/lighting/dimmer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index c4fc224..df712a5 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -200,7 +200,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..6b9a0c1 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -163,7 +163,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From e2984d7f43da1090edb3e78742184bdf2d0ec01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:06 +0000
Subject: [PATCH 24/35] fix: report as on the lights that are dimmed, timed, or
 blinking

---
 pyown/items/lighting/base.py  | 10 +++++++++-
 pyown/items/lighting/light.py |  5 +----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index df712a5..b753a9c 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -161,6 +161,14 @@ class BaseLight(BaseItem, ABC):
         """Turns the light on for 0.5 seconds."""
         await self.send_normal_message(WhatLight.ON_0_5_SEC)
 
+    @staticmethod
+    def _is_on(what: What) -> bool:
+        """Returns True if the light is on, also when it's dimmed, timed, or blinking."""
+        if what.tag == WhatLight.COMMAND_TRANSLATION and what.parameters:
+            return what.parameters[0] != WhatLight.OFF
+
+        return what.tag != WhatLight.OFF
+
     @abstractmethod
     def get_status(self) -> AsyncIterator[tuple[Where, bool | int]]:
         """Gets the status of the light."""
@@ -264,7 +272,7 @@ class BaseLight(BaseItem, ABC):
             tasks += cls._create_tasks(
                 cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),
                 item,
-                message.what == WhatLight.ON,
+                cls._is_on(message.what),
             )
         else:
             raise InvalidMessage(str(message))
diff --git a/pyown/items/lighting/light.py b/pyown/items/lighting/light.py
index ea6ea05..1286cf5 100644
--- a/pyown/items/lighting/light.py
+++ b/pyown/items/lighting/light.py
@@ -66,7 +66,4 @@ class Light(BaseLight):
             tuple[Where, bool]: The where and the status of the light.
         """
         async for message in self.send_status_request():
-            if message.what == WhatLight.ON:
-                yield message.where, True
-            elif message.what == WhatLight.OFF:
-                yield message.where, False
+            yield message.where, self._is_on(message.what)
-- 
2.43.0


From 88be0e145831f937e69d390700e3ed4bc8676430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:08 +0000
Subject: [PATCH 25/35] fix: allow the dimmer commands with parameters

---
 pyown/items/lighting/base.py   |  4 ++++
 pyown/items/lighting/dimmer.py | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index b753a9c..3084c66 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -113,6 +113,10 @@ class WhatLight(What, StrEnum):
 
     COMMAND_TRANSLATION = "1000"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class BaseLight(BaseItem, ABC):
     """Base class for all light items."""
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 6b9a0c1..dd94c7c 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -1,6 +1,6 @@
 from typing import AsyncIterator, Callable, Coroutine, Self
 
-from ...tags import Dimension, Value, Where
+from ...tags import Dimension, Value, What, Where
 from .base import BaseLight, LightEvents, WhatLight
 
 __all__ = [
@@ -20,7 +20,7 @@ class Dimmer(BaseLight):
         if speed is not None and (speed < 0 or speed > 255):
             raise ValueError("Invalid speed value")
 
-        what = WhatLight.ON
+        what: What = WhatLight.ON
         # I do not own a dimmer, so I cannot test this.
         # Also, the documentation is not clear on what is the range of the speed parameter
         if speed is not None:
@@ -36,7 +36,7 @@ class Dimmer(BaseLight):
         if speed is not None and (speed < 0 or speed > 255):
             raise ValueError("Invalid speed value")
 
-        what = WhatLight.OFF
+        what: What = WhatLight.OFF
 
         if speed is not None:
             what = what.with_parameter(speed)
@@ -88,8 +88,11 @@ class Dimmer(BaseLight):
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
 
-        what = WhatLight.UP_1_PERCENT
+        what: What = WhatLight.UP_1_PERCENT
 
+        if value is None and speed is not None:
+            # the speed is always the second parameter
+            value = 1
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
@@ -107,8 +110,11 @@ class Dimmer(BaseLight):
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
 
-        what = WhatLight.DOWN_1_PERCENT
+        what: What = WhatLight.DOWN_1_PERCENT
 
+        if value is None and speed is not None:
+            # the speed is always the second parameter
+            value = 1
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
-- 
2.43.0


From 5fc44d39de3df8e472a2c92966e5230293beaa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:11 +0000
Subject: [PATCH 26/35] fix: dispatch the camera events

---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..e2ac540 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -12,6 +13,7 @@ __all__ = ["ITEM_TYPES"]
 ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.LIGHTING: Light,
     Who.AUTOMATION: Automation,
+    Who.VIDEO_DOOR_ENTRY: Camera,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
 }
-- 
2.43.0


From 9b0266d9b3bb7dd2507f9b87358a48e8d59a55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:15 +0000
Subject: [PATCH 27/35] fix: reject the invalid speeds when changing the
 percentage of a dimmer

---
 pyown/items/lighting/dimmer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index dd94c7c..802d381 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,6 +87,8 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what: What = WhatLight.UP_1_PERCENT
 
@@ -109,6 +111,8 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what: What = WhatLight.DOWN_1_PERCENT
 
-- 
2.43.0


From d7fd26ebbf5dd6649aed62cf0e3fff08536ba5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:24 +0000
Subject: [PATCH 28/35] fix: sending on a closed connection raises
 InvalidSession

A message waiting for a stalled connection, that is closed in the meantime,
was written on the closed transport and raised an AttributeError.
---
 pyown/protocol/protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 3f69f45..79be8ad 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -129,6 +129,9 @@ class OWNProtocol(Protocol):
             msg (BaseMessage): The message to send
             delay (float): The delay to wait before sending the message.
                 If the messages are sent too fast, certain servers will respond with invalid messages.
+
+        Raises:
+            InvalidSession: if the connection is closed
         """
         data = msg.bytes
 
@@ -137,6 +140,9 @@ class OWNProtocol(Protocol):
         while self._lock.locked() and not self._transport.is_closing():
             await asyncio.sleep(delay)
 
+        if self._transport.is_closing():
+            raise InvalidSession("Connection closed")
+
         self._transport.write(data)
         log.debug(f"Sent message: {msg}")
 
-- 
2.43.0


From 81e62502fdac2808012f2d7b5f0dd50c79b92016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 29/35] fix: refuse operations while the session is being
 opened

---
 pyown/client/base.py   | 26 +++++++++++++++++++-------
 pyown/client/client.py |  2 +-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index d4ef579..0577751 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -63,6 +63,9 @@ class BaseClient(ABC):
         self._transport: Optional[Transport] = None
         self._protocol: Optional[OWNProtocol] = None
 
+        # True when the handshake is done, before that the messages belong to the handshake
+        self._ready = False
+
         self._exchange_lock = Lock()
 
         self._loop = loop or asyncio.get_event_loop()
@@ -120,6 +123,7 @@ class BaseClient(ABC):
             await self.close()
             raise
 
+        self._ready = True
         log.info("Client ready")
 
     async def _handshake(self) -> None:
@@ -128,7 +132,7 @@ class BaseClient(ABC):
         # The second packet is from the client and set the session type
         # Wait for the first packet
         async with asyncio.timeout(5):
-            message = await self.read_message()
+            message = await self._receive_message()
 
         if message.type != MessageType.ACK:
             raise InvalidAuthentication("Expected ACK message")
@@ -137,7 +141,7 @@ class BaseClient(ABC):
 
         # Send the session type
         await self.send_message(self._session_type.to_message(), force=True)
-        resp = await self.read_message()
+        resp = await self._receive_message()
 
         # Authentication
         # if the next message is an ACK, the server does not require authentication
@@ -169,7 +173,7 @@ class BaseClient(ABC):
             raise InvalidAuthentication("The open authentication requires a numeric password")
 
         await self.send_message(GenericMessage(["#" + enc]), force=True)
-        resp = await self.read_message()
+        resp = await self._receive_message()
 
         if resp.type != MessageType.ACK:
             raise InvalidAuthentication("Invalid password")
@@ -191,7 +195,7 @@ class BaseClient(ABC):
 
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
-        resp = await self.read_message()
+        resp = await self._receive_message()
         server_key = self._parse_hash(resp)
 
         # Generate the client key
@@ -216,7 +220,7 @@ class BaseClient(ABC):
             GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
-        resp = await self.read_message()
+        resp = await self._receive_message()
 
         if resp.type == MessageType.NACK:
             raise InvalidAuthentication("Invalid password")
@@ -247,7 +251,7 @@ class BaseClient(ABC):
         """
         if not self.is_cmd_session() and not force:
             raise InvalidSession("Cannot send messages in an event session")
-        if self._protocol is None:
+        if self._protocol is None or not (self._ready or force):
             raise InvalidSession("Client not started")
 
         await self._protocol.send_message(message)
@@ -262,6 +266,13 @@ class BaseClient(ABC):
             TimeoutError: if the server does not respond in the given time.
             InvalidSession: if the client is not started or the connection is closed.
         """
+        if not self._ready:
+            raise InvalidSession("Client not started")
+
+        return await self._receive_message(timeout)
+
+    async def _receive_message(self, timeout: int | None = 5) -> BaseMessage:
+        """Awaits a message from the server, also during the handshake."""
         if self._protocol is None:
             raise InvalidSession("Client not started")
 
@@ -279,7 +290,7 @@ class BaseClient(ABC):
         are discarded.
         """
         async with self._exchange_lock:
-            if self.is_cmd_session() and self._protocol is not None:
+            if self.is_cmd_session() and self._ready and self._protocol is not None:
                 self._protocol.discard_messages()
             yield
 
@@ -288,6 +299,7 @@ class BaseClient(ABC):
         if self._transport is not None:
             self._transport.close()
 
+        self._ready = False
         self._protocol = None
         self._transport = None
 
diff --git a/pyown/client/client.py b/pyown/client/client.py
index 88c2e96..148ebbc 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -105,7 +105,7 @@ class Client(BaseClient):
         if self.is_cmd_session():
             raise InvalidSession("Cannot run loop on a command session")
 
-        if self._transport is None:
+        if self._transport is None or not self._ready:
             raise InvalidSession("Client is not connected")
 
         if client is None:
-- 
2.43.0


From ded96854be44c1d3a6f68db38f81c518b7970a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:23 +0000
Subject: [PATCH 30/35] fix: do not accept white space before the end of a
 message

---
 pyown/protocol/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 79be8ad..d9210b1 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -107,7 +107,7 @@ class OWNProtocol(Protocol):
     def _decode(data: bytes) -> str:
         # In OpenWebNet, the message is always written with ascii characters
         try:
-            return data.decode("ascii").strip()
+            return data.decode("ascii").lstrip()
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
             raise e
-- 
2.43.0


From d432ecbb842e9c9e6d6a6308d589bdf2b29c78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:51 +0000
Subject: [PATCH 31/35] fix: do not open the session of a client closed while
 it was connecting

---
 pyown/client/base.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 0577751..181cc58 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -96,14 +96,14 @@ class BaseClient(ABC):
         await self.close()
 
         # Every connection needs its own futures because they can be completed only once
-        self._on_connection_start = self._loop.create_future()
-        self._on_connection_end = self._loop.create_future()
+        on_start = self._on_connection_start = self._loop.create_future()
+        on_end = self._on_connection_end = self._loop.create_future()
 
         try:
-            self._transport, self._protocol = await self._loop.create_connection(
+            transport, protocol = await self._loop.create_connection(
                 lambda: OWNProtocol(
-                    on_connection_start=self._on_connection_start,
-                    on_connection_end=self._on_connection_end,
+                    on_connection_start=on_start,
+                    on_connection_end=on_end,
                 ),
                 self._host,
                 self._port,
@@ -111,16 +111,27 @@ class BaseClient(ABC):
         except OSError:
             raise TimeoutError("Could not connect to the server")
 
+        # The client can be closed, or started again, while it is connecting
+        if self._on_connection_start is not on_start:
+            transport.close()
+            raise InvalidSession("Client closed")
+
+        self._transport, self._protocol = transport, protocol
+
         try:
             # Wait for the connection to start
-            await self._on_connection_start
+            await on_start
 
             log.debug("Connection started")
 
             await self._handshake()
+
+            if self._on_connection_start is not on_start:
+                raise InvalidSession("Client closed")
         except BaseException:
             # Do not leave a connection that can't be used open
-            await self.close()
+            if self._on_connection_start is on_start:
+                await self.close()
             raise
 
         self._ready = True
@@ -302,6 +313,7 @@ class BaseClient(ABC):
         self._ready = False
         self._protocol = None
         self._transport = None
+        self._on_connection_start = self._loop.create_future()
 
     @abstractmethod
     async def loop(self):
-- 
2.43.0


From fbbcfd74de70ce3574c2c99ee6df4b0519791827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 32/35] fix: reject the energy addresses outside the documented
 ranges

---
 pyown/items/energy/energy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index d17fc05..33f0a98 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -53,19 +53,24 @@ class EnergyManagement(BaseItem):
         Raises:
             InvalidTag: If the where tag is not valid.
         """
-        if self.where.string.startswith("1") and self.where.string[1:].isnumeric():
+        if self.where.string.startswith("1") and self._is_number(self.where.string[1:], 127):
             return TypeEnergy.STOP_GO
-        elif self.where.string.startswith("5") and self.where.string[1:].isnumeric():
+        elif self.where.string.startswith("5") and self._is_number(self.where.string[1:], 255):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[:1] == ["0"]
-            and self.where.tag[1:].isnumeric()
+            and self.where.parameters == ["0"]
+            and self._is_number(self.where.tag[1:], 255)
         ):
             return TypeEnergy.ACTUATOR
         else:
             raise InvalidTag(self.where)
 
+    @staticmethod
+    def _is_number(string: str, last: int) -> bool:
+        """Checks if the string is a number in [1-last]."""
+        return string.isnumeric() and len(string) <= 3 and 1 <= int(string) <= last
+
     async def start_sending_daily_totalizers_hourly(self, day: int | None, month: int | None):
         """Start sending daily totalizers on an hourly basis on an event session.
 
-- 
2.43.0


From 73189d4d8d295bb9d6e2d25ac439422f4df32beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:09 +0000
Subject: [PATCH 33/35] fix: messages with an unknown structure could not be
 hashed

---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 23652ea..44651fc 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 062dd0b8f04fe29abd5776db88aad23990c7d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:53 +0000
Subject: [PATCH 34/35] fix: a generic message changed with the list it was
 built from

---
 pyown/messages/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 44651fc..3788b0e 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -153,7 +153,8 @@ class GenericMessage(BaseMessage):
     """
 
     def __init__(self, tags: list[str]):
-        self._tags = tags
+        # The caller can still change its list
+        self._tags = list(tags)
 
     @property
     def message(self) -> str:
-- 
2.43.0


From ffc4e343a9c4e0a917ad0bb4d24d0e9c303f575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 35/35] fix: a callback that fails when it is called lost the
 other callbacks of the event or ended the loop

---
 pyown/items/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyown/items/base.py b/pyown/items/base.py
index 9662a9a..b14221e 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -81,8 +81,13 @@ class BaseItem(ABC):
         self._client = client
 
     @staticmethod
-    def _create_tasks(funcs: list[CoroutineCallback], *args: Any) -> list[Task]:
-        return [asyncio.create_task(func(*args)) for func in funcs]
+    async def _run_callback(func: CoroutineCallback, *args: Any) -> None:
+        # Called inside its own task, so an error in calling it does not affect the other callbacks
+        await func(*args)
+
+    @classmethod
+    def _create_tasks(cls, funcs: list[CoroutineCallback], *args: Any) -> list[Task]:
+        return [asyncio.create_task(cls._run_callback(func, *args)) for func in funcs]
 
     @classmethod
     async def call_callbacks(cls, item: Self, message: BaseMessage) -> list[Task]:
-- 
2.43.0

