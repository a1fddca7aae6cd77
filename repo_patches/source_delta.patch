From 9cce4c41e81415980d9907972586a6246be25d1b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 01/89] fix: provide the stored value to primitive change
 callbacks

A requested value that the storage type can't represent (integer overflow,
single-precision rounding) was handed to callbacks instead of the value that
was actually stored, and re-applying such a value counted as a change.
---
 runtimepy/primitives/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index e186bad..f466cc9 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -163,7 +163,7 @@ class Primitive(_Generic[T]):
 
         curr: T = self.raw.value  # type: ignore
         self.raw.value = value
-        self._check_callbacks(curr, value)
+        self._check_callbacks(curr, self.raw.value)  # type: ignore
 
     @property
     def scaled(self) -> Numeric:
-- 
2.43.0


From c731a4c821c374bc522eb690cb6c84cc99e3c562 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 02/89] fix: allow primitive callbacks to register and remove
 callbacks

Mutating the callback mapping while it was iterated raised RuntimeError out
of the value update, after the new value had been stored.
---
 runtimepy/primitives/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index f466cc9..b029268 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -143,15 +143,16 @@ class Primitive(_Generic[T]):
         """Determine if any callbacks should be serviced."""
 
         if self.callbacks and curr != new:
-            to_remove = []
-            for ident, (callback, once) in self.callbacks.items():
-                callback(curr, new)
+            # Callbacks can be added or removed by the callbacks serviced here.
+            for ident, (callback, once) in list(self.callbacks.items()):
+                if ident not in self.callbacks:
+                    continue
+
+                # Remove one-time callbacks.
                 if once:
-                    to_remove.append(ident)
+                    self.remove_callback(ident)
 
-            # Remove one-time callbacks.
-            for item in to_remove:
-                self.remove_callback(item)
+                callback(curr, new)
 
     def set_value(self, value: T, timestamp_ns: int = None) -> None:
         """Set a new underlying value."""
-- 
2.43.0


From 438bef5989a43d258bb96f975aade0d92f594a1e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 03/89] fix: return the stored value when incrementing an
 integer

The un-wrapped sum was returned when the addition overflowed.
---
 runtimepy/primitives/int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/primitives/int.py b/runtimepy/primitives/int.py
index 69895fd..6218bbb 100644
--- a/runtimepy/primitives/int.py
+++ b/runtimepy/primitives/int.py
@@ -38,7 +38,7 @@ class BaseIntPrimitive(PrimitiveIsCloseMixin[int]):
 
         new_val: int = self.raw.value + amount  # type: ignore
         self.set_value(new_val, timestamp_ns=timestamp_ns)
-        return new_val
+        return self.value
 
     async def wait_for_value(
         self,
-- 
2.43.0


From 58c4d7a5b9d45059cebe42c4df34915c1f5b5286 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 04/89] fix: don't discard a successful evaluation of a
 primitive

A change made after the evaluator succeeded, but before the waiting task got
to run, overwrote the result: the wait ended early, with a failure.
---
 runtimepy/primitives/evaluation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a7780bd..a6196da 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -72,11 +72,12 @@ async def evaluate(
     def change_callback(curr: T, new: T) -> None:
         """Handle underlying value changes to the provided primitive."""
 
-        # Always update the result when called.
+        # Always update the result when called (until resolved).
         nonlocal result
-        result = evaluator(curr, new)
-        if result:
-            event.set()
+        if not event.is_set():
+            result = evaluator(curr, new)
+            if result:
+                event.set()
 
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(change_callback):
-- 
2.43.0


From f40af07f2e3f1ea79f9da469f1d8d4f76204ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 05/89] fix: don't cancel the consumer of a primitive sampling
 generator

sample_for held a timeout context while suspended at a yield: when it expired
there, the consuming task was cancelled wherever it was waiting.
---
 runtimepy/primitives/evaluation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a6196da..1960f6e 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -121,6 +121,8 @@ async def sample_for(
     is set).
     """
 
+    deadline = asyncio.get_running_loop().time() + timeout
+
     sample_queue: asyncio.Queue[tuple[T, int]] = asyncio.Queue()
     keep_sampling = True
     samples = 0
@@ -151,13 +153,16 @@ async def sample_for(
             poll_sample_event()
 
     # Service the callback until resolved or this evaluation times out.
+    # A timeout context can't be held while yielding: it would cancel whatever
+    # the consumer happens to be awaiting when it expires.
     with primitive.callback(sample):
-        try:
-            async with asyncio.timeout(timeout):
-                while keep_sampling:
-                    yield await sample_queue.get()
-        except asyncio.TimeoutError:
-            pass
+        while keep_sampling:
+            try:
+                async with asyncio.timeout_at(deadline):
+                    item = await sample_queue.get()
+            except asyncio.TimeoutError:
+                break
+            yield item
 
     # Drain queue.
     while not sample_queue.empty():
-- 
2.43.0


From 194ae5e39658857d5a801a2201e909cdc4e2ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 06/89] fix: keep message framing aligned when a consumer stops
 early

---
 runtimepy/message/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 1047a00..fd8a8da 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -79,7 +79,7 @@ class MessageProcessor:
             else:
                 message = self.buffer.pop(self.message_length_in.value)
                 if message is not None:
-                    yield message
                     self.reading_header = True
+                    yield message
                 else:
                     can_continue = False
-- 
2.43.0


From 16f33046e24cd40977fa52186441a8b2b9245e6f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:46:04 +0000
Subject: [PATCH 07/89] fix: don't add log messages to the caller's message

---
 runtimepy/message/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index f7f723d..57c0390 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -193,7 +193,7 @@ class JsonMessageInterface:
         # Add any pending log messages to this message.
         if self._log_messages:
             assert "__log_messages__" not in data
-            data["__log_messages__"] = self._log_messages  # type: ignore
+            data = {**data, "__log_messages__": self._log_messages}
             self._log_messages = []
 
         with BytesIO() as stream:
-- 
2.43.0


From 20505d78d38550f0f2a3af6eafaf6cf5972300d7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:46:04 +0000
Subject: [PATCH 08/89] fix: don't mistake a peer's request for a reply with
 the same identifier

---
 runtimepy/message/interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 57c0390..b9a77fb 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -7,6 +7,7 @@ import asyncio
 from copy import copy
 from io import BytesIO
 import logging
+from random import getrandbits
 from typing import Any, Optional, Union
 
 # third-party
@@ -70,7 +71,10 @@ class JsonMessageInterface:
             "kind": type(self).__name__,
         }
 
+        # Both ends of a connection generate identifiers, so they must not
+        # start from the same one.
         self.curr_id = Identifier()
+        self.curr_id.curr_id += self.curr_id.scale * getrandbits(30)
 
         self.ids_waiting: dict[int, asyncio.Event] = {}
         self.id_responses: dict[int, JsonMessage] = {}
-- 
2.43.0


From 1ea22dc9389dec34a61f4f0838208511ac4b7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 09/89] fix: don't answer replies that are no longer awaited

---
 runtimepy/message/interface.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index b9a77fb..0ee96cd 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -75,6 +75,7 @@ class JsonMessageInterface:
         # start from the same one.
         self.curr_id = Identifier()
         self.curr_id.curr_id += self.curr_id.scale * getrandbits(30)
+        self._first_id = self.curr_id.curr_id
 
         self.ids_waiting: dict[int, asyncio.Event] = {}
         self.id_responses: dict[int, JsonMessage] = {}
@@ -214,6 +215,15 @@ class JsonMessageInterface:
                 *message.get("args", []),
             )
 
+    def _is_own_id(self, ident: Any) -> bool:
+        """Determine if this instance generated an identifier."""
+
+        return (
+            isinstance(ident, int)
+            and self._first_id <= ident < self.curr_id.curr_id
+            and (self.curr_id.curr_id - ident) % self.curr_id.scale == 0
+        )
+
     def _handle_reserved(
         self, data: JsonMessage, response: JsonMessage
     ) -> bool:
@@ -234,6 +244,10 @@ class JsonMessageInterface:
                 # Don't respond if we're receiving a reply.
                 should_respond = False
 
+            # A reply that's no longer awaited is still a reply.
+            elif self._is_own_id(ident):
+                should_respond = False
+
             response["__id__"] = ident
 
         # Log messages sent by the peer.
@@ -268,11 +282,14 @@ class JsonMessageInterface:
         self.ids_waiting[ident] = got_response
 
         # Send message and await response.
-        self.send_json(data, addr=addr)
-
-        assert await event_wait(
-            got_response, timeout
-        ), f"No response received in {timeout} seconds!"
+        try:
+            self.send_json(data, addr=addr)
+
+            assert await event_wait(
+                got_response, timeout
+            ), f"No response received in {timeout} seconds!"
+        finally:
+            self.ids_waiting.pop(ident, None)
 
         # Return the result.
         result = self.id_responses[ident]
-- 
2.43.0


From c4dedadf13cd2c45ac9311f80708c5a1ae50ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 10/89] fix: ignore string messages that aren't valid text

---
 runtimepy/net/stream/string.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/stream/string.py b/runtimepy/net/stream/string.py
index c8820f2..9fe0eb9 100644
--- a/runtimepy/net/stream/string.py
+++ b/runtimepy/net/stream/string.py
@@ -27,4 +27,12 @@ class StringMessageConnection(PrefixedMessageConnection):
     ) -> bool:
         """Process a single message."""
 
-        return await self.process_message(stream.read().decode(), addr=addr)
+        data = stream.read()
+
+        try:
+            message = data.decode()
+        except UnicodeDecodeError as exc:
+            self.logger.exception("Couldn't decode %s: %s", data, exc)
+            return True
+
+        return await self.process_message(message, addr=addr)
-- 
2.43.0


From 38a69eafeb625c646e3abf167aba818ca8edf0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 11/89] fix: don't half-apply a conflicting name mapping

---
 runtimepy/mapping.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/runtimepy/mapping.py b/runtimepy/mapping.py
index 34a20bb..e93a428 100644
--- a/runtimepy/mapping.py
+++ b/runtimepy/mapping.py
@@ -64,22 +64,17 @@ class TwoWayNameMapping(_RegexMixin, LoggerMixin, _Generic[T]):
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
 
-        # Add to the key->name mapping.
+        # Ensure the mappings are (and stay) consistent.
+        curr_name = self._mapping.get(key, name)
+        assert curr_name == name, f"{curr_name} != {name} ({key})"
+        curr_key = self._reverse.get(name, key)
+        assert curr_key == key, f"{curr_key} != {key} ({name})"
+
+        # Add to both mappings.
         if key not in self._mapping:
             self._mapping[key] = name
-        else:
-            # Ensure the mappings are consistent.
-            curr_name = self._mapping[key]
-            assert curr_name == name, f"{curr_name} != {name} ({key})"
-
-        # Add to the name->key mapping.
-        if name not in self._reverse:
             self._reverse[name] = key
             self.registered_order.append(name)
-        else:
-            # Ensure the mappings are consistent.
-            curr_key = self._reverse[name]
-            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
     def load_key_to_name(self, mapping: KeyToName[T]) -> None:
         """Load a key-to-name mapping."""
-- 
2.43.0


From 2233f5c95749dc1794be645db227dd94408de9bf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 12/89] fix: keep track of the order boolean names are
 registered in

---
 runtimepy/registry/bool.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/registry/bool.py b/runtimepy/registry/bool.py
index ec76935..306e31e 100644
--- a/runtimepy/registry/bool.py
+++ b/runtimepy/registry/bool.py
@@ -21,6 +21,5 @@ class BooleanRegistry(_TwoWayNameMapping[bool]):
         ):
             return False
 
-        self._mapping[value] = name
-        self._reverse[name] = value
+        self._set(value, name)
         return True
-- 
2.43.0


From 342473d2f4106957791856c1cd62be8cd42d7900 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 13/89] fix: restore bit-field padding that isn't zero

---
 runtimepy/primitives/field/fields.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index a181ef7..7e88b6a 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -60,9 +60,8 @@ class BitFields(_RuntimepyDictCodec):
 
             # Fields without names are considered padding.
             if not name:
-                assert value == 0, "Can't set padding to non-zero value!"
                 assert enum is None, f"Enum '{enum}' specified for padding!"
-                item["index"] = self.pad(width=width, index=index)
+                item["index"] = self.pad(width=width, index=index, val=value)
                 continue
 
             if width == 1:
@@ -186,7 +185,7 @@ class BitFields(_RuntimepyDictCodec):
         result = self._claim_bits(width, index=index)
 
         # Ensure the padded field is still set to the correct value.
-        _BitFieldBase(self.raw, result, width)(val=val)
+        val = _BitFieldBase(self.raw, result, width)(val=val)
 
         self.by_index[result] = (width, val)
         return result
-- 
2.43.0


From 9a68a0056a2d2eb4d0607356502d8bb4268548f8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 14/89] fix: don't claim bits for a bit field that can't be
 added

---
 runtimepy/primitives/field/fields.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index 7e88b6a..ef038f3 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -145,6 +145,7 @@ class BitFields(_RuntimepyDictCodec):
     ) -> _BitFlag:
         """Create a new bit flag."""
 
+        self._check_name(name)
         index = self._claim_bits(1, index=index)
 
         result = _BitFlag(
@@ -155,6 +156,12 @@ class BitFields(_RuntimepyDictCodec):
         self.by_index[index] = result
         return result
 
+    def _check_name(self, name: str) -> None:
+        """Ensure that a name can be used, before any bits are claimed."""
+
+        assert name not in self.fields, f"Field '{name}' already exists!"
+        assert _BitField.validate_name(name), f"Invalid name '{name}'!"
+
     def _claim_bits(self, width: int, index: int = None) -> int:
         """Allocate bits within this primitive."""
 
@@ -210,6 +217,7 @@ class BitFields(_RuntimepyDictCodec):
         """Create a new bit field."""
 
         assert width != 1, "Use bit-flags for single-width fields!"
+        self._check_name(name)
 
         return self.claim_field(
             _BitField(
-- 
2.43.0


From de5fb4d6903b9ed5fe2761e31cf5173e0e480e6f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 15/89] fix: accept valid field, channel and enumeration names
 in data

---
 runtimepy/data/schemas/BitFields.yaml       | 4 ++--
 runtimepy/data/schemas/Channel.yaml         | 2 +-
 runtimepy/data/schemas/ChannelRegistry.yaml | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtimepy/data/schemas/BitFields.yaml b/runtimepy/data/schemas/BitFields.yaml
index d55ed62..d8a67c2 100644
--- a/runtimepy/data/schemas/BitFields.yaml
+++ b/runtimepy/data/schemas/BitFields.yaml
@@ -25,7 +25,7 @@ properties:
       properties:
         name:
           type: string
-          pattern: "^[a-z0-9-_.]+$"
+          pattern: "^[a-zA-Z0-9_.-]+$"
 
         commandable:
           type: boolean
@@ -54,4 +54,4 @@ properties:
             - type: integer
               minimum: 1
             - type: string
-              pattern: "^\\w+$"
+              pattern: "^[\\w\\:.\\-_\\/]+$"
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 2f264d1..8faf524 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -33,4 +33,4 @@ properties:
       - type: integer
         minimum: 1
       - type: string
-        pattern: "^\\w+$"
+        pattern: "^[\\w\\:.\\-_\\/]+$"
diff --git a/runtimepy/data/schemas/ChannelRegistry.yaml b/runtimepy/data/schemas/ChannelRegistry.yaml
index da0c54c..cfdeee1 100644
--- a/runtimepy/data/schemas/ChannelRegistry.yaml
+++ b/runtimepy/data/schemas/ChannelRegistry.yaml
@@ -3,5 +3,5 @@ type: object
 additionalProperties: false
 
 patternProperties:
-  "^[a-z0-9-_.]+$":
+  "^[a-zA-Z0-9_.-]+$":
     $ref: package://runtimepy/schemas/Channel.yaml
-- 
2.43.0


From 2dfb971f19e251a3e6707948984b92ed2c567377 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 16/89] fix: keep bit-field descriptions and commandable
 settings in data

---
 runtimepy/primitives/field/__init__.py | 2 ++
 runtimepy/primitives/field/fields.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 4fe1265..ec213a0 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -131,6 +131,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             result["enum"] = self.enum
         if self.commandable:
             result["commandable"] = True
+        if self.description is not None:
+            result["description"] = self.description
         return result
 
 
diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index ef038f3..386adfe 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -55,6 +55,8 @@ class BitFields(_RuntimepyDictCodec):
             width: int = item["width"]
             value: int = int(item["value"])
             commandable: bool = bool(item.get("commandable", False))
+            if not commandable:
+                item.pop("commandable", None)
             enum = item.get("enum")
             desc: _Optional[str] = _cast(str, item.get("description"))
 
-- 
2.43.0


From ba461dbd13dad8ba2fefaf01a43990575a43b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 17/89] fix: don't leave a channel behind that couldn't be
 created as requested

---
 runtimepy/channel/environment/create.py | 26 +++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/runtimepy/channel/environment/create.py b/runtimepy/channel/environment/create.py
index ffa3681..7af3dd7 100644
--- a/runtimepy/channel/environment/create.py
+++ b/runtimepy/channel/environment/create.py
@@ -28,9 +28,21 @@ from runtimepy.enum.types import EnumTypelike as _EnumTypelike
 from runtimepy.mapping import EnumMappingData as _EnumMappingData
 from runtimepy.primitives import ChannelScaling, Primitive
 from runtimepy.primitives import Primitivelike as _Primitivelike
+from runtimepy.primitives import normalize as _normalize
+from runtimepy.primitives.types import AnyPrimitiveType as _AnyPrimitiveType
 from runtimepy.registry.name import RegistryKey as _RegistryKey
 
 
+def _kind(
+    kind: _Union[Primitive[_Any], _Primitivelike],
+) -> _AnyPrimitiveType:
+    """Get the type of storage requested for a channel."""
+
+    return (
+        kind.kind if isinstance(kind, Primitive) else _normalize(kind).kind
+    )
+
+
 class CreateChannelEnvironment(_BaseChannelEnvironment):
     """An environment extension for creating channels."""
 
@@ -56,6 +68,9 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             if isinstance(enum, _RuntimeEnum):
                 enum = enum.id
 
+            # Don't register a channel that can't have its enumeration.
+            runtime_enum = self.enums[enum]
+
         # Register the channel.
         result = self.channels.channel(
             name,
@@ -74,7 +89,7 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
 
         # Keep track of any new enum channels.
         if enum is not None:
-            self.channel_enums[result] = self.enums[enum]
+            self.channel_enums[result] = runtime_enum
 
         return self[name]
 
@@ -90,6 +105,8 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
     ) -> _IntChannelResult:
         """Create an integer channel."""
 
+        assert _kind(kind).is_integer, kind
+
         result = _cast(
             _IntChannelResult,
             self.channel(
@@ -103,7 +120,6 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             ),
         )
 
-        assert result[0].raw.kind.is_integer
         self.ints.add(result[0])
 
         return result
@@ -119,6 +135,8 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
     ) -> _BoolChannelResult:
         """Create a boolean channel."""
 
+        assert _kind(kind).is_boolean, kind
+
         result = _cast(
             _BoolChannelResult,
             self.channel(
@@ -131,7 +149,6 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             ),
         )
 
-        assert result[0].raw.kind.is_boolean
         self.bools.add(result[0])
 
         return result
@@ -147,6 +164,8 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
     ) -> _FloatChannel:
         """Create a floating-point channel."""
 
+        assert _kind(kind).is_float, kind
+
         result = _cast(
             _FloatChannel,
             self.channel(
@@ -159,7 +178,6 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             )[0],
         )
 
-        assert result.raw.kind.is_float
         self.floats.add(result)
 
         return result
-- 
2.43.0


From bd85a8ff5f5d9766330574cfb49983c2ddf33074 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 18/89] fix: keep track of the type of every channel that is
 created

---
 runtimepy/channel/environment/create.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/runtimepy/channel/environment/create.py b/runtimepy/channel/environment/create.py
index 7af3dd7..deb4e32 100644
--- a/runtimepy/channel/environment/create.py
+++ b/runtimepy/channel/environment/create.py
@@ -11,7 +11,9 @@ from typing import cast as _cast
 from vcorelib.namespace import Namespace as _Namespace
 
 # internal
+from runtimepy.channel import BoolChannel as _BoolChannel
 from runtimepy.channel import FloatChannel as _FloatChannel
+from runtimepy.channel import IntChannel as _IntChannel
 from runtimepy.channel.environment.base import (
     BaseChannelEnvironment as _BaseChannelEnvironment,
 )
@@ -87,6 +89,14 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
         if min_period_s is not None:
             result.event.set_min_period(min_period_s)
 
+        # Keep track of the channel's Python type.
+        if result.type.is_boolean:
+            self.bools.add(_cast(_BoolChannel, result))
+        elif result.type.is_integer:
+            self.ints.add(_cast(_IntChannel, result))
+        else:
+            self.floats.add(_cast(_FloatChannel, result))
+
         # Keep track of any new enum channels.
         if enum is not None:
             self.channel_enums[result] = runtime_enum
@@ -120,8 +130,6 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             ),
         )
 
-        self.ints.add(result[0])
-
         return result
 
     def bool_channel(
@@ -149,8 +157,6 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             ),
         )
 
-        self.bools.add(result[0])
-
         return result
 
     def float_channel(
@@ -178,8 +184,6 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             )[0],
         )
 
-        self.floats.add(result)
-
         return result
 
     def enum(
-- 
2.43.0


From c14e7d69802391c4a5640249a0d5c420f0e9daeb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 19/89] fix: don't keep the name of an item that couldn't be
 registered

---
 runtimepy/registry/__init__.py |  9 +++++++--
 runtimepy/registry/name.py     | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/runtimepy/registry/__init__.py b/runtimepy/registry/__init__.py
index 81679b8..c25a5ad 100644
--- a/runtimepy/registry/__init__.py
+++ b/runtimepy/registry/__init__.py
@@ -82,9 +82,14 @@ class Registry(_RuntimepyDictCodec, _Generic[T]):
 
         # Inject an identifier into the data if one's not present.
         if "id" not in data:
-            identifier = self.names.register_name(name)
+            identifier = self.names.identifier(name)
             if identifier is None:
-                return None
+                if not self.names.validate_name(name, self.names.logger):
+                    return None
+
+                # The name isn't registered until the item is known to be
+                # valid.
+                identifier = self.names.next_identifier()
             data["id"] = identifier
 
         item = self.kind(data)
diff --git a/runtimepy/registry/name.py b/runtimepy/registry/name.py
index 900cee5..faef0e7 100644
--- a/runtimepy/registry/name.py
+++ b/runtimepy/registry/name.py
@@ -34,6 +34,13 @@ class NameRegistry(_TwoWayNameMapping[int]):
             if key >= self._current:
                 self._current = key + 1
 
+    def next_identifier(self) -> int:
+        """Get the next identifier that isn't used by any name."""
+
+        while self._current in self._mapping:
+            self._current += 1
+        return self._current
+
     def register_name(
         self, name: str, identifier: int = None
     ) -> _Optional[int]:
@@ -50,9 +57,7 @@ class NameRegistry(_TwoWayNameMapping[int]):
 
         # Find the next valid identifier.
         if identifier is None:
-            while self._current in self._mapping:
-                self._current += 1
-            identifier = self._current
+            identifier = self.next_identifier()
 
         # Store the mapping and return the identifier.
         if identifier not in self._mapping:
-- 
2.43.0


From af93907f03615fe932002d3cd4f2ef37bdefd1cc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 20/89] fix: allow registry items to be compared with each
 other

---
 runtimepy/registry/item.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/registry/item.py b/runtimepy/registry/item.py
index 3c07291..aaff197 100644
--- a/runtimepy/registry/item.py
+++ b/runtimepy/registry/item.py
@@ -21,7 +21,11 @@ class RegistryItem(_RuntimepyDictCodec):
 
     def __eq__(self, other) -> bool:
         """Use the integer identifier to determine equivalence."""
-        return bool(self.id == getattr(other, "id", other["id"]))
+
+        if isinstance(other, RegistryItem):
+            return self.id == other.id
+
+        return isinstance(other, dict) and bool(self.id == other["id"])
 
     def init(self, data: _JsonObject) -> None:
         """Perform implementation-specific initialization."""
-- 
2.43.0


From 3d6ef15ad02e4b3a06307ead9821731c913e26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 21/89] fix: don't add bit-fields every time an environment is
 finalized

---
 runtimepy/channel/environment/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 1366e64..309f387 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -438,7 +438,13 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
     def finalize(self, strict: bool = True) -> None:
         """Finalize this instance."""
 
-        for fields in self.to_add:
+        if strict:
+            assert not self.finalized, "Instance already finalized!"
+
+        # Only add fields once, finalizing again doesn't have any effect.
+        to_add = self.to_add
+        self.to_add = []
+        for fields in to_add:
             self.fields.add(fields)
 
         super().finalize(strict=strict)
-- 
2.43.0


From 10437a0ec6afc42caa90982e1ddc3769cb14a15f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 22/89] fix: provide the number of an enumeration value without
 a name

---
 runtimepy/channel/environment/base.py      | 6 +++++-
 runtimepy/primitives/field/manager/base.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 309f387..a65bb44 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -203,7 +203,11 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         # Resolve enumeration values to strings.
         if enum is not None and resolve_enum:
-            value = enum.get_str(_cast(int, value))
+            name = enum.as_str(_cast(int, value))
+
+            # Not every value needs to have a name.
+            if name is not None:
+                value = name
 
         return value
 
diff --git a/runtimepy/primitives/field/manager/base.py b/runtimepy/primitives/field/manager/base.py
index a75e52e..baf179f 100644
--- a/runtimepy/primitives/field/manager/base.py
+++ b/runtimepy/primitives/field/manager/base.py
@@ -146,7 +146,11 @@ class BitFieldsManagerBase:
         if field.is_enum and resolve_enum:
             name = self.registry.name(key)
             assert name is not None, key
-            value = self.enum_lookup[name].get_str(value)
+            enum_name = self.enum_lookup[name].as_str(value)
+
+            # Not every value needs to have a name.
+            if enum_name is not None:
+                value = enum_name
 
         elif field.width == 1:
             value = bool(value)
-- 
2.43.0


From 4138086a69c89a4585019f19f91c4a387dddce4e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:06:23 +0000
Subject: [PATCH 23/89] fix: accept text for the stored value of a scaled
 integer channel

---
 runtimepy/channel/environment/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index a65bb44..029258a 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -131,7 +131,8 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
                 is_int = chan.raw.kind.is_integer
 
                 if is_int or chan.raw.kind.is_float:
-                    kind = int if is_int and not chan.raw.scaling else float
+                    scale = scaled and chan.raw.scaling
+                    kind = int if is_int and not scale else float
                     try:
                         value = kind(value)
                         resolved = True
-- 
2.43.0


From 6b0d3f3b241c36048a91f4470665532aaf2e9a10 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:37:48 +0000
Subject: [PATCH 24/89] fix: let exponential back-off grow exponentially

---
 runtimepy/net/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/backoff.py b/runtimepy/net/backoff.py
index aa8ca4b..674f0ff 100644
--- a/runtimepy/net/backoff.py
+++ b/runtimepy/net/backoff.py
@@ -42,5 +42,5 @@ class ExponentialBackoff:
         """Sleep for the correct amount of time."""
 
         await asyncio.sleep(self.wait)
-        self.wait = min((2 ^ self.attempt) * self.interval, self.max_sleep)
+        self.wait = min((2**self.attempt) * self.interval, self.max_sleep)
         self.attempt += 1
-- 
2.43.0


From 12a2f2d5f37cb8e955dac2aac5f11b2467c7a943 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:37:48 +0000
Subject: [PATCH 25/89] fix: provide a connection's restart attempts in their
 channel

---
 runtimepy/net/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c62c69e..4d7f929 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -104,7 +104,7 @@ class Connection(
         )
         self.env.channel(
             "restart_attempts",
-            self._restarts,
+            self._restart_attempts,
             description="Number of connection restart attempts.",
         )
 
@@ -251,9 +251,9 @@ class Connection(
             await backoff.sleep()
             if await self.restart():
                 self._set_enabled(True)
-                self._restarts.raw.value += 1
+                self._restarts.value += 1
 
-            self._restart_attempts.raw.value += 1
+            self._restart_attempts.value += 1
 
     @asynccontextmanager
     async def process_then_disable(self, **kwargs) -> AsyncIterator[None]:
-- 
2.43.0


From 60cb497214fe1b20d683644b9a3d718feb7d9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 26/89] fix: disable connections when one of their tasks fails

---
 runtimepy/net/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 4d7f929..0f6fdb9 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -308,10 +308,14 @@ class Connection(
 
         # Run tasks in parallel.
         gather_task = _asyncio.create_task(
-            _asyncio.wait(self._tasks, return_when=_asyncio.ALL_COMPLETED)
+            _asyncio.wait(self._tasks, return_when=_asyncio.FIRST_EXCEPTION)
         )
         await gather_task
 
+        # A connection can't operate without a task that failed.
+        self.disable("task failed")
+        await _asyncio.wait(self._tasks)
+
         # Ensure that tasks have their exceptions retrieved.
         _log_exceptions(self._tasks + [gather_task], self.logger)
 
-- 
2.43.0


From 94f29ac802247bf43afc218f258710bf4744a854 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 27/89] fix: don't consider a restarted connection initialized
 early

---
 runtimepy/net/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 0f6fdb9..458a96e 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -181,9 +181,9 @@ class Connection(
         """Set the enabled state for this connection."""
 
         self._enabled.value = state
+        self.initialized.clear()
         if not state:
             self.disabled_event.set()
-            self.initialized.clear()
         else:
             self.disabled_event.clear()
 
-- 
2.43.0


From 1cbdd67150b3896bfce6978a594f625c4e45c9be Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 28/89] fix: don't disable a restarted connection when its old
 socket ends

---
 runtimepy/net/tcp/protocol.py | 5 ++++-
 runtimepy/net/udp/protocol.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/tcp/protocol.py b/runtimepy/net/tcp/protocol.py
index 00004b7..fb8d876 100644
--- a/runtimepy/net/tcp/protocol.py
+++ b/runtimepy/net/tcp/protocol.py
@@ -43,4 +43,7 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
 
         msg = "Disconnected." if exc is None else f"Disconnected: '{exc}'."
         self.logger.info(msg)
-        self.conn.disable("disconnected")
+
+        # Restarted connections have a new protocol.
+        if getattr(self.conn, "_protocol", self) is self:
+            self.conn.disable("disconnected")
diff --git a/runtimepy/net/udp/protocol.py b/runtimepy/net/udp/protocol.py
index ee41584..e4d49be 100644
--- a/runtimepy/net/udp/protocol.py
+++ b/runtimepy/net/udp/protocol.py
@@ -49,4 +49,6 @@ class UdpQueueProtocol(_DatagramProtocol):
 
         # Most of the time this error occurs when sending to a loopback
         # destination (localhost) that is no longer listening.
-        self.conn.disable(str(exc))
+        # Restarted connections have a new protocol.
+        if getattr(self.conn, "_protocol", self) is self:
+            self.conn.disable(str(exc))
-- 
2.43.0


From 2c058dc121c7c2c815635ccf70a46d35eb121853 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 29/89] fix: process a managed connection once at a time

---
 runtimepy/net/manager.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 66b671c..e683104 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -76,6 +76,7 @@ class ConnectionManager(LoggerMixin):
 
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
         tasks: list[_asyncio.Task[None]] = []
+        processing: dict[_Connection, _asyncio.Task[None]] = {}
         self._conns = []
         new_conn_task: _Optional[_asyncio.Task[_Connection]] = None
 
@@ -94,19 +95,30 @@ class ConnectionManager(LoggerMixin):
             # Filter completed tasks out of the working set.
             next_tasks = _log_exceptions(tasks)
 
-            # Filter out disabled connections.
+            # Filter out connections that are done processing.
             enabled = []
             for conn in self._conns:
-                if not conn.disabled:
+                task = processing[conn]
+
+                # Connections attempting to restart are still processing.
+                if not task.done():
                     enabled.append(conn)
 
                 # Check if this connection should be restarted.
-                elif conn.auto_restart:
-                    next_tasks.append(
-                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
+                elif (
+                    conn.auto_restart
+                    and not task.cancelled()
+                    and task.exception() is None
+                ):
+                    processing[conn] = _asyncio.create_task(
+                        conn.process(stop_sig=stop_sig)
                     )
+                    next_tasks.append(processing[conn])
                     enabled.append(conn)
 
+                else:
+                    del processing[conn]
+
             self._conns = enabled
 
             # If a new connection was made, register a task for processing
@@ -114,9 +126,10 @@ class ConnectionManager(LoggerMixin):
             if new_conn_task.done():
                 new_conn = new_conn_task.result()
                 self._conns.append(new_conn)
-                next_tasks.append(
-                    _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
+                processing[new_conn] = _asyncio.create_task(
+                    new_conn.process(stop_sig=stop_sig)
                 )
+                next_tasks.append(processing[new_conn])
                 new_conn_task = None
 
             tasks = next_tasks
-- 
2.43.0


From 16844f4bcde249b36707169cadcdfa2a6802db27 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 30/89] fix: shut every managed connection down when one of
 them fails

---
 runtimepy/net/manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index e683104..ca46217 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -140,6 +140,9 @@ class ConnectionManager(LoggerMixin):
                 new_conn_task.cancel()
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
-                    await _asyncio.wait_for(_asyncio.gather(*tasks), 1.0)
+                    await _asyncio.wait_for(
+                        _asyncio.gather(*tasks, return_exceptions=True), 1.0
+                    )
+                _log_exceptions(tasks)
 
         self._running = False
-- 
2.43.0


From 5194192e88a12e1a0930e27e309a7e16883715fb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:05:45 +0000
Subject: [PATCH 31/89] fix: parse channel events that arrive in pieces

---
 runtimepy/channel/environment/telemetry.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 1c040a1..b91ce5d 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -126,6 +126,14 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
 
         return result
 
+    def _event_name(self) -> str:
+        """Get the name that the current event header identifies."""
+
+        ident = cast(int, self.channels.event_header["identifier"])
+        name = self.channels.names.name(ident)
+        assert name is not None, ident
+        return name
+
     def parse_event_stream(self, stream: BinaryIO) -> Iterator[ParsedEvent]:
         """Parse individual events from a stream."""
 
@@ -134,8 +142,10 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         # Ingest stream.
         channels.event_fifo.ingest(stream.read())
 
-        ident = -1
+        # A header may have been parsed from earlier stream data.
         name = ""
+        if channels.header_ready:
+            name = self._event_name()
 
         keep_going = True
         while keep_going:
@@ -149,9 +159,7 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                     channels.event_header.array.update(data)
 
                     # Update local variables.
-                    ident = cast(int, channels.event_header["identifier"])
-                    name = channels.names.name(ident)  # type: ignore
-                    assert name is not None, ident
+                    name = self._event_name()
 
                     # Update state.
                     channels.header_ready = True
@@ -168,8 +176,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                     event = self._parse_channel_event(name)
 
                 if event is not None:
-                    yield event
-
                     # Update state.
                     channels.header_ready = False
                     keep_going = True
+
+                    yield event
-- 
2.43.0


From 53aa55adaaa76c04495abcfddeca7162b93c2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:05:45 +0000
Subject: [PATCH 32/89] fix: don't apply scaling to ingested channel events

---
 runtimepy/channel/environment/telemetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index b91ce5d..6feaf10 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -83,7 +83,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         if self.fields.has_field(point.name):
             self.fields[point.name].raw.value = point.value  # type: ignore
         else:
-            self.set(point.name, point.value)
+            # Events provide stored values (that scaling isn't applied to).
+            self.channels[point.name].raw.value = point.value
 
     def _parse_channel_event(self, name: str) -> Optional[ParsedEvent]:
         """Attempt to parse a channel event from the fifo."""
-- 
2.43.0


From 95bb42f6820dc7fb5a24c82397c1b05f27be78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:05:45 +0000
Subject: [PATCH 33/89] fix: stop streaming channel events when a context
 raises

---
 runtimepy/channel/event/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index ec9a3b0..6a70a5d 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -63,9 +63,11 @@ class PrimitiveEvent:
         ident = raw.register_callback(callback)
 
         self.streaming = True
-        yield
-        assert raw.remove_callback(ident)
-        self.streaming = False
+        try:
+            yield
+        finally:
+            assert raw.remove_callback(ident)
+            self.streaming = False
 
     def _poll(
         self,
-- 
2.43.0


From 3904c1879028e3bbb9b326d3b1ac99e4111c0438 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:05:45 +0000
Subject: [PATCH 34/89] fix: don't count channel events that weren't written

---
 runtimepy/channel/event/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index 6a70a5d..5508bac 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -98,7 +98,7 @@ class PrimitiveEvent:
             if flush:
                 stream.flush()
 
-        if channel is not None:
+        if channel is not None and written:
             channel.increment(written)
 
         return written
-- 
2.43.0


From 56c12060a37d8c9398829d40eafcddceeda6051b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 35/89] fix: keep a periodic task disabled when it gets
 disabled

---
 runtimepy/task/basic/periodic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 11d4848..6fd8493 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -164,14 +164,14 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    self._enabled.raw.value = await _asyncio.shield(
-                        self.dispatch()
-                    )
+                    # Dispatching may also disable this task.
+                    if not await _asyncio.shield(self.dispatch()):
+                        self.disable()
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-            if stop_sig is not None:
-                self._enabled.raw.value = not stop_sig.is_set()
+            if stop_sig is not None and stop_sig.is_set():
+                self.disable()
 
             if self._enabled:
                 try:
-- 
2.43.0


From d25195e7844116a360566e7b8d0778f758f7ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 36/89] fix: wait a full period while a task is paused

---
 runtimepy/task/basic/periodic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 6fd8493..a323ac9 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -156,6 +156,8 @@ class PeriodicTask(
         iter_time = _Double()
 
         while self._enabled:
+            iter_time.value = 0.0
+
             # When paused, don't run the iteration itself.
             if not self.paused:
                 with self.metrics.measure(
-- 
2.43.0


From e187d29917b780ea11dc02cd2c3cfd667ed20093 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 37/89] fix: allow a periodic task that failed to run again

---
 runtimepy/task/basic/periodic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index a323ac9..53e2bbb 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -153,6 +153,17 @@ class PeriodicTask(
             "Task starting at %s.", _rate_str(self.period_s.value)
         )
 
+        try:
+            await self._run(stop_sig=stop_sig)
+        finally:
+            # Allow a task that failed to run again.
+            self.disable()
+
+        self.logger.debug("Task completed.")
+
+    async def _run(self, stop_sig: _asyncio.Event = None) -> None:
+        """Run iterations of this task while it's enabled."""
+
         iter_time = _Double()
 
         while self._enabled:
@@ -186,8 +197,6 @@ class PeriodicTask(
                     self.logger.debug("Task was cancelled.")
                     self.disable()
 
-        self.logger.debug("Task completed.")
-
     async def stop_extra(self) -> None:
         """Extra actions to perform when this task is stopping."""
 
-- 
2.43.0


From d080c240001abe924739f24ea2d321f79341fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 38/89] fix: keep an asynchronous task disabled when it gets
 disabled

---
 runtimepy/task/asynchronous.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 9844391..e8516f7 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -139,18 +139,17 @@ class AsyncTask(_LoggerMixin):
         self.enable()
 
         # Run this task's initialization.
-        self.enabled.raw.value &= await _asyncio.shield(
-            self.init(*args, **kwargs)
-        )
+        if not await _asyncio.shield(self.init(*args, **kwargs)):
+            self.disable()
 
         while self.enabled:
             # Keep track of the rate that this task is running at.
             start = eloop.time()
             self.rate_hz.raw.value = self.dispatch_rate(to_nanos(start))
 
-            self.enabled.raw.value &= await _asyncio.shield(
-                self.dispatch(*args, **kwargs)
-            )
+            # Dispatching may also disable this task.
+            if not await _asyncio.shield(self.dispatch(*args, **kwargs)):
+                self.disable()
             exec_time = eloop.time() - start
 
             # Update runtime metrics.
-- 
2.43.0


From 4a363fa25f0321c190cbc64faf4c98b7901a0c02 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 39/89] fix: count more than 255 dispatches of an asynchronous
 task

---
 runtimepy/task/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index e8516f7..ebf4c8a 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -55,7 +55,7 @@ class AsyncTask(_LoggerMixin):
 
             with env.names_pushed(METRICS_NAME):
                 # Track the number of times this task has been dispatched.
-                self.dispatches = env.int_channel("dispatches", kind="uint8")[
+                self.dispatches = env.int_channel("dispatches", kind="uint32")[
                     0
                 ]
 
-- 
2.43.0


From 400c420ac13862eb3544adf6355b6639efb06bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 40/89] fix: wait for managed connections wherever they're
 managed

---
 runtimepy/net/manager.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index ca46217..b14f3c9 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -31,6 +31,8 @@ class ConnectionManager(LoggerMixin):
         super().__init__()
         self.queue: _asyncio.Queue[_Connection] = _asyncio.Queue()
         self._running = False
+        self._stop_sig: _Optional[_asyncio.Event] = None
+        self._stopped = _asyncio.Event()
         self._conns: list[_Connection] = []
 
     @property
@@ -70,9 +72,21 @@ class ConnectionManager(LoggerMixin):
         # Allow this method to be reentrant.
         if self._running:
             await stop_sig.wait()
+            if stop_sig is self._stop_sig:
+                await self._stopped.wait()
             return
 
         self._running = True
+        self._stop_sig = stop_sig
+        self._stopped.clear()
+        try:
+            await self._manage(stop_sig)
+        finally:
+            self._running = False
+            self._stopped.set()
+
+    async def _manage(self, stop_sig: _asyncio.Event) -> None:
+        """Handle incoming connections until the stop signal is set."""
 
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
         tasks: list[_asyncio.Task[None]] = []
@@ -144,5 +158,3 @@ class ConnectionManager(LoggerMixin):
                         _asyncio.gather(*tasks, return_exceptions=True), 1.0
                     )
                 _log_exceptions(tasks)
-
-        self._running = False
-- 
2.43.0


From 0c6d740a0466f40f38910a07e0ad98d59724bacb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 41/89] fix: let connections close before an application ends

---
 runtimepy/net/arbiter/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ef84b3e..fa06a9e 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -443,9 +443,14 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         conns = _asyncio.create_task(self.manager.manage(self.stop_sig))
 
         # Run application.
-        result = await self._entry(
-            app=app, check_connections=check_connections, config=config
-        )
+        try:
+            result = await self._entry(
+                app=app, check_connections=check_connections, config=config
+            )
+
+        # Allow connections to shut down.
+        finally:
+            await _asyncio.wait([conns])
 
         # Shutdown any pending tasks.
         pending = log_exceptions(self._servers + [conns], logger=self.logger)
-- 
2.43.0


From 6f2c9f6db796381d040b8ccfe7c8f5d88eb110b0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 42/89] fix: don't consider a stage with failures successful

---
 runtimepy/net/arbiter/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index fa06a9e..42a977d 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -396,6 +396,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             inf.logger.debug("Starting.")
 
         total = 0
+        failure = 0
         try:
             with TIMER.measure_ns() as token:
                 results = await _asyncio.gather(
@@ -408,6 +409,9 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
                 pairs[idx][1].logger.debug("Returned %d.", result)
                 total += result
 
+                # Results that cancel out don't make a stage successful.
+                failure = failure or result
+
                 # Capture a normal result.
                 stage_results[idx] = AppResult(
                     apps[idx].__name__,
@@ -416,6 +420,8 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
                     duration_ns=duration_ns,
                 )
 
+            total = total or failure
+
         # Keep track of stages that raise an exception.
         except Exception as exc:  # pylint: disable=broad-exception-caught
             stage_results = [
-- 
2.43.0


From a766b9d65da7f771b6e56663e1887e4c806865c3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 43/89] fix: don't wait forever for connections that don't
 initialize

---
 runtimepy/net/arbiter/base.py | 43 ++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 42a977d..dc5df7a 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -203,8 +203,34 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         for struct in self._structs.values():
             register_env(struct.name, struct.command)
 
-    async def _init_connections(self) -> None:
-        """Initialize network connections."""
+    async def _wait_initialized(self, connection: _Connection) -> None:
+        """
+        Wait for a connection to be initialized, to end before that happens or
+        for the stop signal.
+        """
+
+        events = [connection.initialized, self.stop_sig]
+
+        # Connections that are restarted initialize eventually.
+        if not connection.auto_restart:
+            events.append(
+                connection.exited
+                if connection.disabled
+                else connection.disabled_event
+            )
+
+        tasks = [_asyncio.create_task(x.wait()) for x in events]
+        try:
+            await _asyncio.wait(tasks, return_when=_asyncio.FIRST_COMPLETED)
+        finally:
+            for task in tasks:
+                task.cancel()
+
+    async def _init_connections(self) -> bool:
+        """
+        Initialize network connections. Returns false if the stop signal
+        interrupted this.
+        """
 
         # Start deferred connections.
         for key, value in zip(
@@ -215,7 +241,11 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
         # Ensure connections are all initialized.
         await _asyncio.gather(
-            *(x.initialized.wait() for x in self._connections.values())
+            *(self._wait_initialized(x) for x in self._connections.values())
+        )
+
+        return not self.stop_sig.is_set() or all(
+            x.initialized.is_set() for x in self._connections.values()
         )
 
     async def _build_structs(self, info: AppInfo) -> None:
@@ -267,7 +297,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         await self._start_processes(stack)
 
         with self.log_time("Connection initialization", reminder=True):
-            await self._init_connections()
+            initialized = await self._init_connections()
 
         # Register environments.
         self._register_envs()
@@ -277,8 +307,9 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
         # Run application, but only if all the registered connections
         # are still alive after initialization.
-        if not check_connections or not any(
-            x.disabled for x in self._connections.values()
+        if initialized and (
+            not check_connections
+            or not any(x.disabled for x in self._connections.values())
         ):
             info = AppInfo(
                 self.logger,
-- 
2.43.0


From 9a56c1b72f0350b98dad3a5a2515ae4883c2aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:57:45 +0000
Subject: [PATCH 44/89] fix: don't raise when a value is out of range for a
 channel

---
 runtimepy/channel/environment/command/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 52a5a6b..6c97682 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -96,7 +96,7 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         try:
             self.env.set(args.channel, args.extra[0])
-        except (ValueError, KeyError) as exc:
+        except (ValueError, KeyError, OverflowError) as exc:
             self.logger.exception(
                 "Exception setting '%s':", args.channel, exc_info=exc
             )
-- 
2.43.0


From ef58ed431fcc997dfc6469e91dbff3df5f48c30e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 45/89] fix: acknowledge the last block of a file that's read

---
 runtimepy/net/udp/tftp/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index dbf4cba..4f4305e 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -89,9 +89,8 @@ class TftpConnection(BaseTftpConnection):
                 # Compute if this is the end of the stream.
                 nonlocal end_of_data
                 end_of_data = len(data) < endpoint.max_block_size
-                if not end_of_data:
-                    idx += 1
-                else:
+                idx += 1
+                if end_of_data:
                     fsync(path_fd.fileno())
 
             write_block()
-- 
2.43.0


From 7f7102c4b63af36464a50f17a85d46e77273fdda Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 46/89] fix: accept writing an empty file

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ef7c936..c639327 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -161,8 +161,7 @@ class TftpEndpoint(LoggerMixin):
 
         keep_going = True
         idx = 1
-        curr_size = 0
-        written = 0
+        curr_size = self.max_block_size
         while keep_going:
             # Set up event trigger for expected data payload.
             event = asyncio.Event()
@@ -190,7 +189,6 @@ class TftpEndpoint(LoggerMixin):
                 assert curr_size <= self.max_block_size, curr_size
 
                 stream.write(data)
-                written += curr_size
 
                 # We only expect future iterations if data payloads are
                 # saturated.
@@ -204,7 +202,7 @@ class TftpEndpoint(LoggerMixin):
                 idx += 1
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
-        success = written > 0 and curr_size < self.max_block_size
+        success = curr_size < self.max_block_size
         if success:
             await repeat_until(
                 self._ack_sender(idx),
-- 
2.43.0


From 3684f87b737b368a3d2761be7a9b812aa620763c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 47/89] fix: don't truncate a file to check if it can be
 written

---
 runtimepy/net/udp/tftp/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index c639327..949d618 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -245,7 +245,7 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_permission(path, "wb"):
+        if not self._check_permission(path, "ab"):
             return None
 
         return asyncio.create_task(self._process_write_request(path, mode))
-- 
2.43.0


From 1aa43a8b587b158f4aeb53730f90ea240053f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 48/89] fix: don't service a request again when it's
 re-transmitted

---
 runtimepy/net/udp/tftp/endpoint.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 949d618..c6ed769 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -7,7 +7,7 @@ import asyncio
 from contextlib import AsyncExitStack, suppress
 import logging
 from pathlib import Path
-from typing import BinaryIO, Callable, Optional, Union
+from typing import Any, BinaryIO, Callable, Coroutine, Optional, Union
 
 # third-party
 from vcorelib.asyncio.poll import repeat_until
@@ -67,6 +67,9 @@ class TftpEndpoint(LoggerMixin):
         self.awaiting_blocks: dict[int, asyncio.Event] = {}
         self.blocks: dict[int, bytes] = {}
 
+        # Requests currently being serviced.
+        self.requests: set[tuple[str, str, str]] = set()
+
         # Can be upgraded via RFC 2347.
         self.max_block_size = TFTP_MAX_BLOCK
 
@@ -242,13 +245,28 @@ class TftpEndpoint(LoggerMixin):
     ) -> Optional[asyncio.Task[None]]:
         """Handle a write request."""
 
+        # Ignore re-transmitted requests.
+        request = ("write", filename, mode)
+        if request in self.requests:
+            return None
+
         path = self.get_path(filename)
 
         # Ensure we can service this request.
         if not self._check_permission(path, "ab"):
             return None
 
-        return asyncio.create_task(self._process_write_request(path, mode))
+        return self._service(request, self._process_write_request(path, mode))
+
+    def _service(
+        self, request: tuple[str, str, str], coro: Coroutine[Any, Any, None]
+    ) -> asyncio.Task[None]:
+        """Service a request, until this completes it isn't serviced again."""
+
+        self.requests.add(request)
+        task = asyncio.create_task(coro)
+        task.add_done_callback(lambda _: self.requests.discard(request))
+        return task
 
     async def serve_file(self, path: Path) -> bool:
         """Serve file chunks via this endpoint."""
@@ -313,6 +331,11 @@ class TftpEndpoint(LoggerMixin):
     ) -> Optional[asyncio.Task[None]]:
         """Handle a read-request message."""
 
+        # Ignore re-transmitted requests.
+        request = ("read", filename, mode)
+        if request in self.requests:
+            return None
+
         path = self.get_path(filename)
 
         # Ensure we can service this request.
@@ -321,7 +344,7 @@ class TftpEndpoint(LoggerMixin):
         ):
             return None
 
-        return asyncio.create_task(self._process_read_request(path, mode))
+        return self._service(request, self._process_read_request(path, mode))
 
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
-- 
2.43.0


From 2c725e4081058856b8cb0b687b4072442d0e9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 49/89] fix: refuse requests for files that can't be opened

---
 runtimepy/net/udp/tftp/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index c6ed769..ae5de13 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -358,7 +358,7 @@ class TftpEndpoint(LoggerMixin):
             with path.open(mode):
                 pass
             result = True
-        except PermissionError:
+        except OSError:
             self.error_sender(
                 TftpErrorCode.ACCESS_VIOLATION,
                 f"Can't open={mode} '{path}'",
-- 
2.43.0


From 4d231fa06d6dab7e033cd009ca6ec1642374186e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 50/89] fix: answer the sender of an unknown opcode

---
 runtimepy/net/udp/tftp/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 386f73a..eb7d7f0 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -364,7 +364,9 @@ class BaseTftpConnection(UdpConnection):
                 await self.handlers[code](stream, addr)
             else:
                 msg = f"Unknown opcode {code}"
-                self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg)
+                self.send_error(
+                    TftpErrorCode.ILLEGAL_OPERATION, msg, addr=addr
+                )
                 self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
 
         return True
-- 
2.43.0


From 7a497d6e44eaf1aea8da7049fb6ca2fd13a69a0b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 51/89] fix: ignore malformed messages

---
 runtimepy/net/udp/tftp/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index eb7d7f0..580feec 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -8,6 +8,7 @@ from contextlib import AsyncExitStack
 from io import BytesIO
 import logging
 from pathlib import Path
+from struct import error as StructError
 from typing import BinaryIO, Callable
 
 # third-party
@@ -358,10 +359,16 @@ class BaseTftpConnection(UdpConnection):
         """Process a datagram."""
 
         with BytesIO(data) as stream:
-            self.opcode.from_stream(stream)
-            code: int = self.opcode.value
-            if code in self.handlers:
-                await self.handlers[code](stream, addr)
+            try:
+                self.opcode.from_stream(stream)
+                code: int = self.opcode.value
+                if code in self.handlers:
+                    await self.handlers[code](stream, addr)
+                    return True
+            except (IndexError, ValueError, StructError) as exc:
+                self.logger.error(
+                    "Malformed message from %s:%d: %s.", addr[0], addr[1], exc
+                )
             else:
                 msg = f"Unknown opcode {code}"
                 self.send_error(
-- 
2.43.0


From 7f958a2356c5c82a1bab0ea3746bebd1e1042f15 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 52/89] fix: serve files again after this was cancelled

---
 runtimepy/net/udp/tftp/endpoint.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ae5de13..b76f90a 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -287,14 +287,17 @@ class TftpEndpoint(LoggerMixin):
                 event = asyncio.Event()
                 self.awaiting_acks[idx] = event
 
-                if not await repeat_until(
-                    self.chunk_sender(idx, chunk),
-                    event,
-                    self.period.value,
-                    self.timeout.value,
-                ):
-                    success = False
+                try:
+                    success = await repeat_until(
+                        self.chunk_sender(idx, chunk),
+                        event,
+                        self.period.value,
+                        self.timeout.value,
+                    )
+                finally:
                     self.awaiting_acks.pop(idx, None)
+
+                if not success:
                     break
 
                 idx += 1
-- 
2.43.0


From 9765fd2b052c7d1f4dc74bad91c74334e9465d1a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:03:59 +0000
Subject: [PATCH 53/89] fix: refuse to read files with impossible names

---
 runtimepy/net/udp/tftp/endpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index b76f90a..7642b7c 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -373,7 +373,9 @@ class TftpEndpoint(LoggerMixin):
     def _check_exists(self, path: Path) -> bool:
         """Check if a file exists, send an error if not."""
 
-        result = path.is_file()
+        result = False
+        with suppress(OSError):
+            result = path.is_file()
 
         if not result:
             self.error_sender(
-- 
2.43.0


From 16d97d7a0f270a7470f664bd56f9126154afd8cf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:32:24 +0000
Subject: [PATCH 54/89] fix: HTTP request targets with IPv6 hosts or '?' in
 queries

---
 runtimepy/net/http/request_target.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/http/request_target.py b/runtimepy/net/http/request_target.py
index 1153535..9f91bad 100644
--- a/runtimepy/net/http/request_target.py
+++ b/runtimepy/net/http/request_target.py
@@ -36,12 +36,12 @@ class RequestTarget:
 
         # 3.2.3 authority-form
         elif method == http.HTTPMethod.CONNECT:
-            host, port = request_target_raw.split(":")
+            host, port = request_target_raw.rsplit(":", maxsplit=1)
             self.authority_form = (host, int(port))
 
         # 3.2.1 origin-form
         elif request_target_raw.startswith("/"):
-            parts = request_target_raw.split("?")
+            parts = request_target_raw.split("?", maxsplit=1)
             path = parts[0]
             if len(parts) > 1:
                 query = parts[1]
-- 
2.43.0


From b481611c1a866f0ace0eed9faeedd9f40066e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:32:24 +0000
Subject: [PATCH 55/89] fix: multi-byte characters in HTTP headers

---
 runtimepy/net/http/state.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtimepy/net/http/state.py b/runtimepy/net/http/state.py
index 0811587..686ec93 100644
--- a/runtimepy/net/http/state.py
+++ b/runtimepy/net/http/state.py
@@ -21,12 +21,12 @@ class HeaderProcessingState:
     """A container for header-related processing state."""
 
     lines: list[str]
-    line: str
+    line: bytes
 
     @staticmethod
     def create() -> "HeaderProcessingState":
         """Create a default instance."""
-        return HeaderProcessingState([], "")
+        return HeaderProcessingState([], b"")
 
     def service(self, buffer: ByteFifo, kind: type[T]) -> Optional[T]:
         """
@@ -37,15 +37,15 @@ class HeaderProcessingState:
         result = None
 
         while result is None and buffer.size:
-            curr_raw = buffer.pop(1)
-            if curr_raw is not None:
-                curr = curr_raw.decode(encoding=DEFAULT_ENCODING)
-
+            curr = buffer.pop(1)
+            if curr is not None:
                 # Any '\r\n' sequence signifies the end of a header line.
-                if curr == "\n":
+                if curr == b"\n":
                     if self.line:
-                        self.lines.append(self.line)
-                        self.line = ""
+                        self.lines.append(
+                            self.line.decode(encoding=DEFAULT_ENCODING)
+                        )
+                        self.line = b""
 
                     # Two sequences in a row signifies the end of the header
                     # section.
@@ -54,7 +54,7 @@ class HeaderProcessingState:
                         result.from_lines(self.lines)
                         self.lines = []
 
-                elif curr != "\r":
+                elif curr != b"\r":
                     self.line += curr
 
         return result
-- 
2.43.0


From ef55986ae04df58df6eba111ca4c9ab0987def55 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:32:24 +0000
Subject: [PATCH 56/89] fix: empty lines before an HTTP message

---
 runtimepy/net/http/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/http/state.py b/runtimepy/net/http/state.py
index 686ec93..2772a9d 100644
--- a/runtimepy/net/http/state.py
+++ b/runtimepy/net/http/state.py
@@ -48,8 +48,8 @@ class HeaderProcessingState:
                         self.line = b""
 
                     # Two sequences in a row signifies the end of the header
-                    # section.
-                    else:
+                    # section. Empty lines before a message are ignored.
+                    elif self.lines:
                         result = kind()
                         result.from_lines(self.lines)
                         self.lines = []
-- 
2.43.0


From 50906cafd7ac4f74188d6eb92351560d0debf598 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:32:24 +0000
Subject: [PATCH 57/89] fix: HTTP responses aren't logged

---
 runtimepy/net/http/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/response.py b/runtimepy/net/http/response.py
index 77fda5b..d2c69be 100644
--- a/runtimepy/net/http/response.py
+++ b/runtimepy/net/http/response.py
@@ -76,7 +76,7 @@ class ResponseHeader(HeadersMixin):
         """Log information about this response header."""
 
         level = logging.INFO if (200 <= self.status <= 299) else logging.ERROR
-        logger.debug(
+        logger.log(
             level,
             "(%s response) %s - %s",
             "outgoing" if out else "incoming",
-- 
2.43.0


From 4a46ffa474990b990c83138ad02359fe22d02d7a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:36:25 +0000
Subject: [PATCH 58/89] fix: HTTP responses to abandoned requests, and requests
 when a connection ends

---
 runtimepy/net/tcp/http/__init__.py | 49 ++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 5351c07..9c7cc4e 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -4,6 +4,7 @@ A module implementing a basic HTTP (multiple RFC's) connection interface.
 
 # built-in
 import asyncio
+from collections import deque
 from copy import copy
 import http
 from json import loads
@@ -55,8 +56,6 @@ class HttpConnection(_TcpConnection):
 
     identity = f"{PKG_NAME}/{VERSION}"
 
-    expecting_response: bool
-
     log_alias = "HTTP"
 
     # Handlers registered at the class level so that instances created at
@@ -71,8 +70,10 @@ class HttpConnection(_TcpConnection):
 
         # Outgoing request handling.
         self.request_ready = asyncio.BoundedSemaphore()
-        self.expecting_response = False
-        self.responses: asyncio.Queue[HttpResponse] = asyncio.Queue(maxsize=1)
+
+        # Requests that haven't been responded to, in the order they were sent
+        # (responses to cancelled requests still arrive).
+        self.pending: deque[asyncio.Future[HttpResponse]] = deque()
 
         self.handlers = copy(self.handlers)
         self.handlers[http.HTTPMethod.GET] = self.get_handler
@@ -137,10 +138,34 @@ class HttpConnection(_TcpConnection):
             # Set boilerplate header data.
             request["user-agent"] = self.identity
 
+            if self.disabled:
+                raise ConnectionError("Connection is disabled.")
+
             self._send(request, data)
-            self.expecting_response = True
-            result = await self.responses.get()
-            self.expecting_response = False
+            response = asyncio.get_running_loop().create_future()
+            self.pending.append(response)
+            return await response
+
+    def disable_extra(self) -> None:
+        """Additional tasks to perform when disabling."""
+
+        # No responses will arrive anymore.
+        while self.pending:
+            response = self.pending.popleft()
+            if not response.done():
+                response.set_exception(ConnectionError("Connection ended."))
+
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        result = await super().restart()
+
+        # A partial message won't be completed by the new stream.
+        if result:
+            self.processor = HttpMessageProcessor()
 
         return result
 
@@ -176,11 +201,11 @@ class HttpConnection(_TcpConnection):
 
         for header, payload in self.processor.ingest(
             data,
-            RequestHeader if not self.expecting_response else ResponseHeader,
+            RequestHeader if not self.pending else ResponseHeader,
         ):
             header.log(self.logger, False)
 
-            if not self.expecting_response:
+            if not self.pending:
                 # Process request.
                 response = ResponseHeader()
                 self._send(
@@ -192,8 +217,8 @@ class HttpConnection(_TcpConnection):
 
             # Process the response to a pending request.
             else:
-                await self.responses.put(
-                    (cast(ResponseHeader, header), payload)
-                )
+                pending = self.pending.popleft()
+                if not pending.done():
+                    pending.set_result((cast(ResponseHeader, header), payload))
 
         return True
-- 
2.43.0


From db07083377020e3bb787a141ecad0a54a6de5302 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:38:10 +0000
Subject: [PATCH 59/89] fix: partial messages received before a reconnect

---
 runtimepy/net/stream/base.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/runtimepy/net/stream/base.py b/runtimepy/net/stream/base.py
index 3479430..4d53cb6 100644
--- a/runtimepy/net/stream/base.py
+++ b/runtimepy/net/stream/base.py
@@ -26,6 +26,20 @@ class PrefixedMessageConnection(_Connection):
         # Header parsing.
         self.processor = MessageProcessor(byte_order=self.byte_order)
 
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        result = await super().restart()
+
+        # A partial message won't be completed by the new stream.
+        if result:
+            self.processor = MessageProcessor(byte_order=self.byte_order)
+
+        return result
+
     def _send_message(
         self, data: BinaryMessage, addr: tuple[str, int] = None
     ) -> None:
-- 
2.43.0


From 84fdd5486e74b3df8017dd3a27547027f58a379e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:46:06 +0000
Subject: [PATCH 60/89] fix: files outside of search paths are served over HTTP

---
 runtimepy/net/server/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9142443..1297fc5 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -7,6 +7,7 @@ import http
 from io import StringIO
 import logging
 import mimetypes
+import os
 from pathlib import Path
 from typing import Any, Optional, TextIO, Union
 
@@ -170,7 +171,13 @@ class RuntimepyServerConnection(HttpConnection):
 
         # Try serving the path as a file.
         for search in self.paths:
-            candidate = search.joinpath(path[0][1:])
+            candidate = Path(
+                os.path.normpath(search.joinpath(path[0].lstrip("/")))
+            )
+
+            # Don't serve anything that isn't located inside the search path.
+            if search not in candidate.parents:
+                continue
 
             # Handle markdown sources.
             if candidate.name:
-- 
2.43.0


From ebd4ba401b891673e4025a66c2d6693d2c9c08fc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:51:35 +0000
Subject: [PATCH 61/89] fix: a request for a long file name ends the connection

---
 runtimepy/net/server/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 1297fc5..1423884 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -182,12 +182,12 @@ class RuntimepyServerConnection(HttpConnection):
             # Handle markdown sources.
             if candidate.name:
                 md_candidate = candidate.with_suffix(".md")
-                if md_candidate.is_file():
+                if os.path.isfile(md_candidate):
                     return await self.render_markdown_file(
                         md_candidate, response
                     )
 
-            if candidate.is_file():
+            if os.path.isfile(candidate):
                 mime, encoding = mimetypes.guess_type(candidate, strict=False)
 
                 # Set MIME type if it can be determined.
-- 
2.43.0


From 829ea06fd623b8f301c5c150d379b139e6ba5aee Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:55:56 +0000
Subject: [PATCH 62/89] fix: channel changes a tab misses when it's hidden or
 shown again

---
 runtimepy/net/server/app/env/tab/message.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 8d7813c..fb70d25 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -46,6 +46,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     ) -> None:
         """Handle 'shown' state changing."""
 
+        was_shown = state.shown
         state.shown = shown
         env = self.command.env
 
@@ -67,12 +68,18 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Begin observing channel events for this environment.
             for name in env.names:
-                self._setup_callback(name, state)
-        else:
-            state.clear_telemetry()
+                if name not in state.callbacks:
+                    self._setup_callback(name, state)
 
-        # Save current UI state.
-        state.latest_ui_values.update(latest)
+            # Save current UI state.
+            state.latest_ui_values.update(latest)
+
+        elif was_shown:
+            # Save current UI state, except for changes that were never sent.
+            state.latest_ui_values = {
+                x: y for x, y in latest.items() if x not in state.points
+            }
+            state.clear_telemetry()
 
         outbox["handle_shown_state"] = shown
 
-- 
2.43.0


From 01e27f59f16d5efc0ce0ec505c049bfd5eeb0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:55:56 +0000
Subject: [PATCH 63/89] fix: numbers that browsers can't decode in UI messages

---
 runtimepy/net/server/app/env/tab/message.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index fb70d25..fa772e9 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -4,10 +4,12 @@ A module implementing a channel-environment tab message-handling interface.
 
 # built-in
 import logging
+from math import isfinite
 from typing import Any, Callable
 
 # internal
 from runtimepy.channel import Channel
+from runtimepy.channel.environment.base import ChannelValue
 from runtimepy.message import JsonMessage
 from runtimepy.net.server.app.env.tab.base import ChannelEnvironmentTabBase
 from runtimepy.net.server.websocket.state import TabState
@@ -15,6 +17,15 @@ from runtimepy.net.server.websocket.state import TabState
 TabMessageSender = Callable[[JsonMessage], None]
 
 
+def json_valid(value: ChannelValue) -> bool:
+    """
+    Determine if a value can be decoded by e.g. browsers (JSON doesn't support
+    NaN and infinity).
+    """
+
+    return not isinstance(value, float) or isfinite(value)
+
+
 class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     """A channel-environment tab interface."""
 
@@ -30,9 +41,9 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Render enumerations etc. here instead of trying to do it
             # in the UI.
-            state.points[name].append(
-                (self.command.env.value(name), prim.last_updated_ns)
-            )
+            value = self.command.env.value(name)
+            if json_valid(value):
+                state.points[name].append((value, prim.last_updated_ns))
 
         state.primitives[name] = prim
         state.callbacks[name] = prim.register_callback(callback)
@@ -51,7 +62,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
         env = self.command.env
 
         # Always sample current values.
-        latest = env.values()
+        latest = {x: y for x, y in env.values().items() if json_valid(y)}
 
         if state.shown:
             # Send missing or changed values.
-- 
2.43.0


From a22a5c20b452fb07cd828ff1f8a2deef34c43a47 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:55:56 +0000
Subject: [PATCH 64/89] fix: UI state isn't polled once the connection doing so
 closes

---
 runtimepy/net/server/struct/__init__.py    |  4 ++++
 runtimepy/net/server/websocket/__init__.py | 24 +++++++---------------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/runtimepy/net/server/struct/__init__.py b/runtimepy/net/server/struct/__init__.py
index 8783f51..266a207 100644
--- a/runtimepy/net/server/struct/__init__.py
+++ b/runtimepy/net/server/struct/__init__.py
@@ -9,6 +9,7 @@ from typing import Optional
 from runtimepy.metrics.connection import ConnectionMetrics
 from runtimepy.mixins.psutil import PsutilMixin
 from runtimepy.net.arbiter.info import RuntimeStruct
+from runtimepy.net.connection import Connection
 from runtimepy.primitives import Float
 
 UI: Optional["UiState"] = None
@@ -24,6 +25,9 @@ class UiState(RuntimeStruct, PsutilMixin):
 
     use_psutil: bool
 
+    # The connection that's polling this struct.
+    poller: Optional[Connection] = None
+
     @staticmethod
     def singleton() -> Optional["UiState"]:
         """Attempt to get the singleton UI struct instance."""
diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 1feaa59..705c038 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -27,7 +27,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
     tabs: dict[str, TabState]
 
     poll_governor: RateLimiter
-    poll_connection_metrics: bool
 
     _ui: Optional[UiState]
 
@@ -51,19 +50,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             ui = UiState.singleton()
 
             if ui is not None and ui.env.finalized:
-
-                def check_metrics_poll(_: int, curr: int) -> None:
-                    """
-                    Register change handler on 'num_connections' primitive.
-                    """
-
-                    self.poll_connection_metrics = (
-                        self.poll_connection_metrics or curr == 1
-                    )
-
-                chan, _ = ui.env["num_connections"]
-                chan.raw.register_callback(check_metrics_poll)  # type: ignore
-
                 # Add to num_connections.
                 ui.env.add_int("num_connections", 1)
                 self._ui = ui
@@ -74,7 +60,9 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         """Update UI-specific state."""
 
         # Only one connection needs to perform this task.
-        if self.poll_connection_metrics and self.poll_governor():
+        if ui.poller is None:
+            ui.poller = self
+        if ui.poller is self and self.poll_governor():
             # Update time.
             ui.env["time_ms"] = time
             ui.env["frame_period_ms"] = time - self.ui_time
@@ -136,7 +124,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             to_nanos(1.0 / 250.0), source=metrics_time_ns
         )
 
-        self.poll_connection_metrics = False
         self._ui = None
 
     async def async_init(self) -> bool:
@@ -158,7 +145,10 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         # Subtract from num_connections.
         ui = self._get_ui()
         if ui:
-            self.poll_connection_metrics = False
+            # Another connection performs this task from now on.
+            if ui.poller is self:
+                ui.poller = None
+
             ui.env.add_int("num_connections", -1)
 
 
-- 
2.43.0


From 25dfd8fdd0d4d287c13d32ecb655b66bc1c4e201 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:22:02 +0000
Subject: [PATCH 65/89] fix: applications of the same function name are served
 each other's document

---
 runtimepy/net/server/app/create.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/server/app/create.py b/runtimepy/net/server/app/create.py
index fde6c6a..10e02c8 100644
--- a/runtimepy/net/server/app/create.py
+++ b/runtimepy/net/server/app/create.py
@@ -17,7 +17,6 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.app.base import WebApplication
 from runtimepy.net.server.html import HtmlApp
 
-DOCUMENTS: dict[str, Html] = {}
 T = TypeVar("T")
 
 
@@ -39,6 +38,8 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
     the originally composed document.
     """
 
+    cached: Optional[Html] = None
+
     async def cached_app(
         document: Html,
         request: RequestHeader,
@@ -47,17 +48,17 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
     ) -> Html:
         """A simple 'Hello, world!' application."""
 
+        nonlocal cached
+
         with LoggerMixin(logger=app.logger).log_time(
             "Composing HTML document"
         ):
             populate = True
 
-            compose_name = compose.__name__
-
             # Use the already-rendered document.
             if config_param(app, "caching", True):
-                if compose_name in DOCUMENTS:
-                    document = DOCUMENTS[compose_name]
+                if cached is not None:
+                    document = cached
                     populate = False
 
             if populate:
@@ -65,7 +66,7 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
                 document = compose(
                     app, document, request, response, request_data
                 )
-                DOCUMENTS[compose_name] = document
+                cached = document
 
         return document
 
-- 
2.43.0


From 47b841a71a8120ce05fe0943aded8cdd3fb97dec Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:00:39 +0000
Subject: [PATCH 66/89] fix: elements inside primitive arrays of some length
 have no byte index

---
 runtimepy/primitives/array/__init__.py | 28 ++++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/runtimepy/primitives/array/__init__.py b/runtimepy/primitives/array/__init__.py
index 237e3db..0962a55 100644
--- a/runtimepy/primitives/array/__init__.py
+++ b/runtimepy/primitives/array/__init__.py
@@ -184,29 +184,31 @@ class PrimitiveArray(Serializable):
         """Add to the array by specifying the type of element to add."""
         return self.add(_create(kind), array_length=array_length)
 
+    def _append(self, primitive: _AnyPrimitive) -> None:
+        """Append a primitive to this array."""
+
+        self._primitives.append(primitive)
+        self._format += primitive.kind.format
+        self.size += primitive.size
+
+        # Add tracking information for the current tail.
+        curr_idx = len(self._primitives)
+        self._bytes_to_index[self.size] = curr_idx
+        self._index_to_bytes[curr_idx] = self.size
+
     def add(self, primitive: _AnyPrimitive, array_length: int = None) -> int:
         """Add another primitive to manage."""
 
         end = self.end
         if isinstance(end, PrimitiveArray):
             if end is self:
-                self._primitives.append(primitive)
-                self._format += primitive.kind.format
-                self.size += primitive.size
+                self._append(primitive)
 
                 # Handle array length.
                 if array_length is not None:
                     for _ in range(array_length - 1):
-                        self._primitives.append(
-                            primitive.copy(),  # type: ignore
-                        )
-                        self._format += primitive.kind.format
-                        self.size += primitive.size
-
-                # Add tracking information for the current tail.
-                curr_idx = len(self._primitives)
-                self._bytes_to_index[self.size] = curr_idx
-                self._index_to_bytes[curr_idx] = self.size
+                        self._append(primitive.copy())  # type: ignore
+
                 result = self.size
             else:
                 result = end.add(primitive, array_length=array_length)
-- 
2.43.0


From 7f4a39e39a631fd6e62734e21bb842e05a894c52 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:00:39 +0000
Subject: [PATCH 67/89] fix: arrays of native byte order are padded

---
 runtimepy/primitives/byte_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/byte_order.py b/runtimepy/primitives/byte_order.py
index b183db7..26f5b5f 100644
--- a/runtimepy/primitives/byte_order.py
+++ b/runtimepy/primitives/byte_order.py
@@ -19,7 +19,8 @@ class ByteOrder(_RuntimeIntEnum):
         """Get the struct formatter for this byte order."""
 
         if self is ByteOrder.NATIVE:
-            return "@"
+            # No alignment, sizes don't account for it.
+            return "="
         if self is ByteOrder.LITTLE_ENDIAN:
             return "<"
         if self is ByteOrder.BIG_ENDIAN:
-- 
2.43.0


From 84959b2599c73da155d3116e83a425e5daabedf2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:00:39 +0000
Subject: [PATCH 68/89] fix: protocol fields whose value isn't in their
 enumeration can't be read

---
 runtimepy/codec/protocol/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 9ee6de7..cc6a47f 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -229,7 +229,11 @@ class ProtocolBase:
 
             # Resolve the enum value.
             if resolve_enum and name in self._enum_fields:
-                val = self._enum_fields[name].get_str(val)  # type: ignore
+                enum_name = self._enum_fields[name].as_str(val)
+
+                # Not every value needs to have a name.
+                if enum_name is not None:
+                    val = enum_name
 
             return val
 
-- 
2.43.0


From 9d725e63ad2b615cfc9b276f206e114a3db0d433 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:00:39 +0000
Subject: [PATCH 69/89] fix: exported protocol fields are always resolved to
 names

---
 runtimepy/codec/protocol/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 8963f1e..e61db03 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -83,7 +83,7 @@ class JsonProtocol(ProtocolBase):
         # Export regular-field values.
         json_obj = data.get(VALUES_KEY, {})
         for name in self._regular_fields:
-            json_obj[name] = self.value(name)
+            json_obj[name] = self.value(name, resolve_enum=resolve_enum)
         if json_obj:
             data[VALUES_KEY] = json_obj
 
-- 
2.43.0


From da2aab06a6372af20270ced0323d41f582c807f1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:00:39 +0000
Subject: [PATCH 70/89] fix: array lengths, and the caller's values, are lost
 importing protocols

---
 runtimepy/codec/protocol/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index e61db03..94ceb00 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -95,8 +95,7 @@ class JsonProtocol(ProtocolBase):
 
         # Only set values once (at the end).
         values = data.get(VALUES_KEY, {})
-        if VALUES_KEY in data:
-            del data[VALUES_KEY]
+        data = {key: val for key, val in data.items() if key != VALUES_KEY}
 
         fields = BitFieldsManager.import_json(data)
 
@@ -111,6 +110,7 @@ class JsonProtocol(ProtocolBase):
                         item["name"],  # type: ignore
                         item["kind"],  # type: ignore
                         enum=item.get("enum"),  # type: ignore
+                        array_length=item.get("array_length"),  # type: ignore
                     )
                 )
 
-- 
2.43.0


From 2d5fe4896e98a494f0e06d38cbc565326aa0a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 71/89] fix: copies of protocols lose (or repeat) parts of
 their layout

---
 runtimepy/codec/protocol/base.py | 55 +++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index cc6a47f..7be5d07 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -59,6 +59,31 @@ class FieldSpec(NamedTuple):
 T = _TypeVar("T", bound="ProtocolBase")
 
 
+def _chain_length(instance: _Optional[Serializable]) -> int:
+    """Get the number of elements in a chain."""
+
+    result = 0
+    while instance is not None:
+        result += 1
+        instance = instance.chain
+    return result
+
+
+def _copy_chain(instance: Serializable, count: int) -> Serializable:
+    """Copy some number of elements from the beginning of a chain."""
+
+    result = instance.copy_without_chain()
+
+    end = result
+    for _ in range(count - 1):
+        assert instance.chain is not None
+        instance = instance.chain
+        end.assign(instance.copy_without_chain())
+        end = end.end
+
+    return result
+
+
 class ProtocolBase:
     """A class for defining runtime communication protocols."""
 
@@ -102,15 +127,18 @@ class ProtocolBase:
         # Keep track of the order that the protocol was created.
         self._build: list[_Union[int, FieldSpec, str]] = []
 
-        # Keep track of named serializables.
+        # Keep track of named serializables (and how many elements of the
+        # chain belong to each).
         self.serializables: SerializableMap = {}
+        self._chain_lengths: dict[str, int] = {}
 
         # Add fields if necessary.
         if build is None:
             build = []
         for item in build:
             if isinstance(item, int):
-                self._add_bit_fields(self._fields.fields[item], track=False)
+                self.array.add(self._fields.fields[item].raw)
+                self._build.append(item)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
                 self.add_field(item, serializable=serializables[item])
@@ -120,7 +148,6 @@ class ProtocolBase:
                     item.name,
                     item.kind,
                     enum=item.enum,
-                    track=False,
                     array_length=item.array_length,
                 )
 
@@ -135,9 +162,10 @@ class ProtocolBase:
             names=self.names,
             fields=_copy(self._fields),
             build=self._build,
+            identifier=self.id,
             byte_order=self.array.byte_order,
             serializables={
-                key: val.copy_without_chain()
+                key: _copy_chain(val, self._chain_lengths[key])
                 for key, val in self.serializables.items()
             },
         )
@@ -157,7 +185,19 @@ class ProtocolBase:
         self.register_name(name)
         self.serializables[name] = serializable
         self._build.append(name)
-        return self.array.add_to_end(serializable, array_length=array_length)
+
+        before = _chain_length(self.array)
+        result = self.array.add_to_end(serializable, array_length=array_length)
+        self._chain_lengths[name] = _chain_length(self.array) - before
+
+        # Primitives added next aren't elements of the serializable (and
+        # always use this protocol's byte order).
+        if isinstance(self.array.end, PrimitiveArray):
+            self.array.add_to_end(
+                PrimitiveArray(byte_order=self.array.byte_order)
+            )
+
+        return result
 
     def add_field(
         self,
@@ -201,13 +241,12 @@ class ProtocolBase:
 
         return result
 
-    def _add_bit_fields(self, fields: _BitFields, track: bool = True) -> None:
+    def _add_bit_fields(self, fields: _BitFields) -> None:
         """Add a bit-fields instance."""
 
         idx = self._fields.add(fields)
         self.array.add(fields.raw)
-        if track:
-            self._build.append(idx)
+        self._build.append(idx)
 
     @contextmanager
     def add_bit_fields(
-- 
2.43.0


From 5c2a9e239518e51e31627e02daa69e8edc733013 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 72/89] fix: a name that's taken leaves its namespace pushed in
 a type system

---
 runtimepy/codec/system/__init__.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index 5d78b9d..bc890b6 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -3,7 +3,8 @@ A basic type-system implementation.
 """
 
 # built-in
-from typing import Iterable, Optional
+from contextlib import contextmanager
+from typing import Iterable, Iterator, Optional
 
 # third-party
 from vcorelib.logging import LoggerMixin
@@ -156,6 +157,18 @@ class TypeSystem(LoggerMixin):
                 array_length=array_length,
             )
 
+    @contextmanager
+    def _pushed(self, *namespace: str) -> Iterator[None]:
+        """Push names to the root namespace, always popped afterwards."""
+
+        for name in namespace:
+            self.root_namespace.push(name)
+        try:
+            yield
+        finally:
+            for name in reversed(namespace):
+                self.root_namespace.pop(name)
+
     def _find_name(
         self,
         name: str,
@@ -168,7 +181,7 @@ class TypeSystem(LoggerMixin):
         if name in self.primitives:
             return name
 
-        with self.root_namespace.pushed(*namespace):
+        with self._pushed(*namespace):
             candidate = self.root_namespace.namespace(name, track=False)
             if candidate in self.custom:
                 return candidate
@@ -193,7 +206,7 @@ class TypeSystem(LoggerMixin):
     ) -> str:
         """Resolve a given name against the current namespace."""
 
-        with self.root_namespace.pushed(*namespace):
+        with self._pushed(*namespace):
             if check_available:
                 resolved = self._find_name(name)
                 assert (
-- 
2.43.0


From 18d3ebfa7be4cbccf2f4b3252948f8d291393dca Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 73/89] fix: size of string primitives that aren't ASCII

---
 runtimepy/primitives/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/string.py b/runtimepy/primitives/string.py
index 05a2ee2..fb50ba0 100644
--- a/runtimepy/primitives/string.py
+++ b/runtimepy/primitives/string.py
@@ -27,7 +27,7 @@ class StringPrimitive:
 
         assert kind.kind.is_integer
         self._value = value
-        self._size = kind(value=len(self._value))
+        self._size = kind(value=len(self._value.encode()))
         self.byte_order = byte_order
 
     def __str__(self) -> str:
@@ -62,7 +62,7 @@ class StringPrimitive:
     def set(self, value: str) -> None:
         """Set a new value for the underlying string."""
         self._value = value
-        self._size.value = len(self._value)
+        self._size.value = len(self._value.encode())
 
     @property
     def size(self) -> int:
-- 
2.43.0


From 90ac108d5386cb1797dc14ead9e5c2c9c0f77430 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:11:18 +0000
Subject: [PATCH 74/89] fix: types named as a primitive are replaced when
 registered again

---
 runtimepy/codec/system/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index bc890b6..168bc39 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -208,11 +208,10 @@ class TypeSystem(LoggerMixin):
 
         with self._pushed(*namespace):
             if check_available:
-                resolved = self._find_name(name)
+                resolved = self.root_namespace.namespace(name, track=False)
                 assert (
-                    resolved is None
-                    or self.root_namespace.namespace(name, track=False)
-                    != resolved
+                    resolved not in self.primitives
+                    and resolved not in self.custom
                 ), f"Name '{name}' not available! found '{resolved}'"
 
             result = self.root_namespace.namespace(name)
-- 
2.43.0


From 5bf3cb3e50a3c01f65983781e374f6873ec9b041 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:11:18 +0000
Subject: [PATCH 75/89] fix: log records with arguments JSON can't express
 don't break messaging

---
 runtimepy/message/interface.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 0ee96cd..24dfa9d 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -43,6 +43,18 @@ from runtimepy.message.types import (
 from runtimepy.util import Identifier
 
 
+def _record_text(record: logging.LogRecord) -> str:
+    """
+    Get a log record's text. Arguments can be any object and thus can't
+    generally be sent.
+    """
+
+    try:
+        return record.getMessage()
+    except (KeyError, TypeError, ValueError):
+        return str(record.msg)
+
+
 class JsonMessageInterface:
     """A JSON messaging interface class."""
 
@@ -191,8 +203,8 @@ class JsonMessageInterface:
         # Stage any pending log messages.
         if self.list_handler:
             for record in self.list_handler.drain():
-                self.stage_remote_log(  # type: ignore
-                    record.msg, *record.args, level=record.levelno
+                self.stage_remote_log(
+                    _record_text(record), level=record.levelno
                 )
 
         # Add any pending log messages to this message.
-- 
2.43.0


From 7003e8275dffe73610fd86f883fa7e495005da2a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:35:52 +0000
Subject: [PATCH 76/89] fix: standard output is ignored when only standard
 error is wanted

---
 runtimepy/subprocess/protocol.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index a1c2272..7378e73 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -80,8 +80,7 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
         if fd == 1 and self.stdout_queue is not None:
             self.stdout_queue.put_nowait(data)
-        elif self.stderr_queue is not None:
-            assert fd == 2, fd
+        elif fd == 2 and self.stderr_queue is not None:
             self.stderr_queue.put_nowait(data)
 
     def pipe_connection_lost(self, fd: int, exc) -> None:
-- 
2.43.0


From 4a08f99f0f69fd28de478df21e0fba07cec59b46 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:35:52 +0000
Subject: [PATCH 77/89] fix: what a process writes at once isn't lost

---
 runtimepy/subprocess/__init__.py | 14 ++++++--------
 runtimepy/subprocess/protocol.py | 13 +++++++++++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index edc7f3d..eb50ba1 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -5,6 +5,7 @@ A module implementing a subprocess management interface.
 # built-in
 from asyncio import Queue, get_running_loop, wait_for
 from contextlib import asynccontextmanager, suppress
+from functools import partial
 from logging import getLogger
 from typing import AsyncIterator
 
@@ -101,15 +102,15 @@ async def spawn_exec(
     program, list_args = reconcile_platform(args[0], args[1:])
 
     _, protocol = await get_running_loop().subprocess_exec(
-        RuntimepySubprocessProtocol, program, *list_args, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout, stderr),
+        program,
+        *list_args,
+        **kwargs,
     )
 
     rel = log_process_info(program, *list_args)
     logger.info("Started exec '%s %s' %d.", rel[0], rel[1], protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
@@ -129,14 +130,11 @@ async def spawn_shell(
     """Create a shell subprocess."""
 
     _, protocol = await get_running_loop().subprocess_shell(
-        RuntimepySubprocessProtocol, cmd, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout, stderr), cmd, **kwargs
     )
 
     logger.info("Started shell '%s' %d.", cmd, protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index 7378e73..f32cc04 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -36,6 +36,17 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
     exited: Event
 
+    def __init__(
+        self, stdout: Queue[bytes] = None, stderr: Queue[bytes] = None
+    ) -> None:
+        """
+        Initialize this instance. A process can write before anything else
+        gets a reference to its protocol.
+        """
+
+        self.stdout_queue = stdout
+        self.stderr_queue = stderr
+
     @property
     def stdout(self) -> Queue[bytes]:
         """Get this instance's standard output queue."""
@@ -59,8 +70,6 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
         self.start_time = metrics_time_ns()
         self.elapsed_time = -1
 
-        self.stdout_queue = None
-        self.stderr_queue = None
         self.exited = Event()
 
         self.transport = transport
-- 
2.43.0


From 850a5dd61a9b2b52d24b97695f20f3c91848f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:35:52 +0000
Subject: [PATCH 78/89] fix: what's left on standard error is reported as such

---
 runtimepy/subprocess/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index eb50ba1..4674784 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -86,7 +86,7 @@ async def close_protocol(
             count += len(message)
 
         if count:
-            logger.warning("stdout had %d remaining bytes.", count)
+            logger.warning("stderr had %d remaining bytes.", count)
 
 
 @asynccontextmanager
-- 
2.43.0


From ed5ef1bfb4c8a83a8cff16e8a67747ffd6b44da3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:47:12 +0000
Subject: [PATCH 79/89] fix: a program that fails is cleaned up after

---
 runtimepy/subprocess/program.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index 86fd710..bf8d147 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -195,12 +195,19 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
                 yield io_task, main_task, peer
         finally:
             logger.removeHandler(peer.list_handler)
-            for cancel in (io_task, main_task, heartbeat):
-                cancel.cancel()
-                await cancel
 
+            tasks = (io_task, main_task, heartbeat)
+            for task in tasks:
+                task.cancel()
+
+            # A task that failed doesn't prevent the others from ending.
+            results = await asyncio.gather(*tasks, return_exceptions=True)
             await peer.cleanup()
 
+            for result in results:
+                if isinstance(result, Exception):
+                    raise result
+
     @classmethod
     async def run(
         cls: Type[T], name: str, config: JsonObject, argv: list[str]
-- 
2.43.0


From a7d2866b08a5342dd98aa79a37990d3884704bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:33:38 +0000
Subject: [PATCH 80/89] fix: add to the front of a list when asked to

---
 runtimepy/net/arbiter/config/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/config/util.py b/runtimepy/net/arbiter/config/util.py
index 0c84173..b68cff6 100644
--- a/runtimepy/net/arbiter/config/util.py
+++ b/runtimepy/net/arbiter/config/util.py
@@ -16,9 +16,9 @@ def list_adder(dest: list[T], data: T, front: bool = True) -> None:
     """Handle adding to either the front or back of a list."""
 
     if front:
-        dest.append(data)
-    else:
         dest.insert(0, data)
+    else:
+        dest.append(data)
 
 
 def fix_kwargs(data: dict[str, _Any]) -> dict[str, _Any]:
-- 
2.43.0


From cd11627db79bbe2c7e76be3d6b7ca649ccaaae61 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:06:24 +0000
Subject: [PATCH 81/89] fix: report kilobits when polling metrics, not
 kilobytes

---
 runtimepy/metrics/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 1fd517d..90a0450 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -55,7 +55,8 @@ class ChannelMetrics:
     def poll(self, time_ns: int = None) -> None:
         """Poll kbps tracking."""
 
-        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns)
+        # Multiply by 8 to get bits from bytes.
+        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns) * 8
         self.message_rate.value = self._message_rate_tracker.poll(
             time_ns=time_ns
         )
-- 
2.43.0


From e47c43e23946e102c9109c7391458e60e35086ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:06:24 +0000
Subject: [PATCH 82/89] fix: reset all of a channel's metrics

---
 runtimepy/metrics/channel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 90a0450..429092b 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -79,6 +79,11 @@ class ChannelMetrics:
         """Reset metrics."""
 
         self.messages.value = 0
+        self.message_rate.value = 0.0
         self.bytes.value = 0
         self.kbps.value = 0.0
-        self._kbps_tracker.reset()
+
+        # What wasn't part of a rate yet must not become part of a later one.
+        for tracker in (self._message_rate_tracker, self._kbps_tracker):
+            tracker.reset()
+            tracker.accumulated = 0.0
-- 
2.43.0


From 1f06963bc64df3aa5fed792e0bdc17816d8e2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:06:24 +0000
Subject: [PATCH 83/89] fix: count bytes of websocket text, not characters

---
 runtimepy/net/websocket/connection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index e406d66..221351d 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -41,6 +41,11 @@ V = _TypeVar("V")
 LOG = _getLogger(__name__)
 
 
+def _byte_count(data: _Union[BinaryMessage, str]) -> int:
+    """Get the number of bytes in a message."""
+    return len(data.encode() if isinstance(data, str) else data)
+
+
 class WebsocketConnection(Connection):
     """A simple websocket connection interface."""
 
@@ -71,13 +76,13 @@ class WebsocketConnection(Connection):
 
         data = await self._handle_connection_closed(self.protocol.recv())
         if data is not None:
-            self.metrics.rx.increment(len(data))
+            self.metrics.rx.increment(_byte_count(data))
         return data
 
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
         await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        self.metrics.tx.increment(_byte_count(data))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-- 
2.43.0


From d7605cce4cc1949f6e5a92e5ad5c46e44d205402 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:38:41 +0000
Subject: [PATCH 84/89] fix: don't fail a telnet connection for an unknown
 command

---
 runtimepy/net/tcp/telnet/__init__.py | 4 +++-
 runtimepy/net/tcp/telnet/codes.py    | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 4284538..2f510ac 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -103,8 +103,10 @@ class Telnet(_TcpConnection):
                         # escaped.
                         if val == TelnetCode.IAC:
                             text.write(data)
-                        else:
+                        elif TelnetCode.is_command(val):
                             await self.process_command(TelnetCode(val))
+                        else:
+                            self.logger.warning("Unknown command: %d.", val)
 
                     processing_command = False
 
diff --git a/runtimepy/net/tcp/telnet/codes.py b/runtimepy/net/tcp/telnet/codes.py
index 82c6812..cd0a313 100644
--- a/runtimepy/net/tcp/telnet/codes.py
+++ b/runtimepy/net/tcp/telnet/codes.py
@@ -71,6 +71,11 @@ class TelnetCode(_IntEnum):
         """Determine if the integer value is an option code."""
         return TelnetCode.WILL <= val <= TelnetCode.DONT
 
+    @staticmethod
+    def is_command(val: int) -> bool:
+        """Determine if the integer value is a known code."""
+        return TelnetCode.SE <= val <= TelnetCode.IAC
+
 
 class TelnetNvt(_IntEnum):
     """Telnet data relevant to the NVT printer and keyboard."""
-- 
2.43.0


From 5dad995cc1dfe989418d09cb5eddf0fabe0c93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:38:41 +0000
Subject: [PATCH 85/89] fix: keep a telnet sequence's state between frames

---
 runtimepy/net/tcp/telnet/__init__.py | 36 ++++++++++++++++------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 2f510ac..82fb831 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -13,6 +13,7 @@ from vcorelib import DEFAULT_ENCODING
 
 # internal
 from runtimepy.net.tcp.connection import TcpConnection as _TcpConnection
+from runtimepy.net.tcp.protocol import QueueProtocol as _QueueProtocol
 from runtimepy.net.tcp.telnet.codes import (
     CARRIAGE_RETURN,
     NEWLINE,
@@ -35,6 +36,17 @@ class Telnet(_TcpConnection):
 
     log_alias = "TELNET"
 
+    def _set_protocol(self, protocol: _QueueProtocol) -> None:
+        """Set a new protocol for this instance."""
+
+        super()._set_protocol(protocol)
+
+        # These form a simple state machine, a sequence may continue in the
+        # next frame.
+        self._telnet_val = 0
+        self._processing_option = False
+        self._processing_command = False
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
         return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
@@ -70,13 +82,6 @@ class Telnet(_TcpConnection):
 
         result = True
 
-        last_val = 0
-        val = 0
-
-        # These two conditions are used to form a simple state machine.
-        processing_option = False
-        processing_command = False
-
         with _ExitStack() as stack:
             text = stack.enter_context(_BytesIO())
             stream = stack.enter_context(_BytesIO(data))
@@ -86,18 +91,21 @@ class Telnet(_TcpConnection):
                 if len(data) == 0:
                     break
 
-                last_val = val
+                last_val = self._telnet_val
                 val = data[0]
+                self._telnet_val = val
 
-                if processing_option:
+                if self._processing_option:
+                    self._processing_option = False
                     await self.process_option(
                         TelnetCode(last_val), val, stream
                     )
-                    processing_option = False
 
-                elif processing_command:
+                elif self._processing_command:
+                    self._processing_command = False
+
                     if TelnetCode.is_option_code(val):
-                        processing_option = True
+                        self._processing_option = True
                     else:
                         # If 'IAC' appears twice in a row, it's being
                         # escaped.
@@ -108,10 +116,8 @@ class Telnet(_TcpConnection):
                         else:
                             self.logger.warning("Unknown command: %d.", val)
 
-                    processing_command = False
-
                 elif val == TelnetCode.IAC:
-                    processing_command = True
+                    self._processing_command = True
 
                 elif TelnetNvt.is_nvt(val):
                     nvt = TelnetNvt(val)
-- 
2.43.0


From 801b52f3eeec382a7e9eae3b811a93c64394bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:38:41 +0000
Subject: [PATCH 86/89] fix: decode telnet text however it's cut

---
 runtimepy/net/tcp/telnet/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 82fb831..df21015 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -4,6 +4,7 @@ A module implementing a basic telnet (RFC 854) connection interface.
 
 # built-in
 from abc import abstractmethod as _abstractmethod
+from codecs import getincrementaldecoder as _getincrementaldecoder
 from contextlib import ExitStack as _ExitStack
 from io import BytesIO as _BytesIO
 from typing import BinaryIO as _BinaryIO
@@ -46,10 +47,14 @@ class Telnet(_TcpConnection):
         self._telnet_val = 0
         self._processing_option = False
         self._processing_command = False
+        self._text_decoder = _getincrementaldecoder(DEFAULT_ENCODING)(
+            errors="replace"
+        )
 
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
-        return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
+        text = self._text_decoder.decode(data)
+        return await self.process_text(text) if text else True
 
     @_abstractmethod
     async def process_command(self, code: TelnetCode) -> None:
-- 
2.43.0


From 598b1250f5758f057e924174f2bb29d210bd14e6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:38:41 +0000
Subject: [PATCH 87/89] fix: don't take a late SCPI response for the next
 command's

---
 runtimepy/net/tcp/scpi/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/scpi/__init__.py b/runtimepy/net/tcp/scpi/__init__.py
index 57397ad..d196417 100644
--- a/runtimepy/net/tcp/scpi/__init__.py
+++ b/runtimepy/net/tcp/scpi/__init__.py
@@ -17,7 +17,7 @@ class ScpiConnection(TcpConnection):
         """Initialize this instance."""
 
         self.command_lock = asyncio.Lock()
-        self.message_queue: asyncio.Queue[str] = asyncio.Queue(maxsize=1)
+        self.message_queue: asyncio.Queue[str] = asyncio.Queue()
 
     async def async_init(self) -> bool:
         """Initialize this instance."""
@@ -54,6 +54,10 @@ class ScpiConnection(TcpConnection):
             command += "?"
 
         async with self.command_lock:
+            # What's left from earlier commands doesn't answer this one.
+            while not self.message_queue.empty():
+                self.message_queue.get_nowait()
+
             self.send_text(command + "\n")
 
             if response or query:
-- 
2.43.0


From 98b06abdcf5e670db85708161c9c3ce8e844e48a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:50:58 +0000
Subject: [PATCH 88/89] fix: let UDP connections made with a backoff restart

---
 runtimepy/net/udp/connection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index cfa4f8f..e0751ae 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -14,6 +14,7 @@ from typing import TypeVar as _TypeVar
 
 # internal
 from runtimepy.net import IpHost, get_free_socket, normalize_host
+from runtimepy.net.backoff import ExponentialBackoff as _ExponentialBackoff
 from runtimepy.net.connection import BinaryMessage as _BinaryMessage
 from runtimepy.net.connection import Connection as _Connection
 from runtimepy.net.connection import EchoConnection as _EchoConnection
@@ -133,7 +134,10 @@ class UdpConnection(_Connection, _TransportMixin):
 
     @classmethod
     async def create_connection(
-        cls: type[T], markdown: str = None, **kwargs
+        cls: type[T],
+        backoff: _ExponentialBackoff = None,
+        markdown: str = None,
+        **kwargs,
     ) -> T:
         """Create a UDP connection."""
 
@@ -157,7 +161,9 @@ class UdpConnection(_Connection, _TransportMixin):
                 kwargs.setdefault("family", _socket.AF_INET)
 
         # Create the underlying connection.
-        transport, protocol = await udp_transport_protocol_backoff(**kwargs)
+        transport, protocol = await udp_transport_protocol_backoff(
+            backoff=backoff, **kwargs
+        )
         conn = cls(transport, protocol, markdown=markdown)
         conn._conn_kwargs = {**kwargs}
 
-- 
2.43.0


From ce463794b510e0c13a5f92eb94f5e9afe425c237 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:50:58 +0000
Subject: [PATCH 89/89] fix: keep an unconnected UDP connection's remote
 address when restarting

---
 runtimepy/net/udp/connection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index e0751ae..9bfc8bf 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -122,7 +122,14 @@ class UdpConnection(_Connection, _TransportMixin):
         def callback(transport_protocol: UdpTransportProtocol) -> None:
             """Callback if the socket creation succeeds."""
 
+            remote = self.remote_address
             self.set_transport(transport_protocol[0])
+
+            # The remote address of a socket that isn't connected is only
+            # known to this instance.
+            if self.remote_address is None and remote is not None:
+                self.set_remote_address(remote)
+
             self._set_protocol(transport_protocol[1])
 
         result = await try_udp_transport_protocol(
-- 
2.43.0

