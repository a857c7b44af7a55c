From 161b0e99cb0bcba059ca4b69d769978d8701401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:28 +0000
Subject: [PATCH 01/45] fix: decode string escapes as characters and not
 misaligned UTF-16 bytes

---
 src/pypsrp/serializer.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..3fb54a1 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -64,10 +64,8 @@ class Serializer(object):
         # encode according to the PSRP rules
         self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # Finds the _xHHHH_ escapes in a string, each one is a UTF-16 code unit.
+        self._deserial_str = re.compile("_x([0-9A-Fa-f]{4})_")
 
     def serialize(
         self,
@@ -766,25 +764,11 @@ class Serializer(object):
         if value is None:
             return ""
 
-        def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
-        unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+        # Each escape is a single UTF-16 code unit, characters outside of the BMP
+        # are sent as 2 escapes so the surrogates need to be joined together
+        # again through UTF-16.
+        string_value = re.sub(self._deserial_str, lambda m: chr(int(m.group(1), 16)), to_unicode(value))
+        return string_value.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From b0fed434ea269889717e5023400758676b4d4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:28 +0000
Subject: [PATCH 02/45] fix: do not reuse the type of the first entry for every
 entry of a queue or stack

---
 src/pypsrp/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 3fb54a1..3be8497 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -482,7 +482,7 @@ class Serializer(object):
         while True:
             try:
                 value = values.get(block=False)
-                self.serialize(value, metadata.list_value_meta, parent=que, clear=False)
+                self.serialize(value, copy(metadata.list_value_meta), parent=que, clear=False)
             except Empty:
                 break
 
@@ -500,7 +500,7 @@ class Serializer(object):
         while True:
             try:
                 value = values.pop()
-                self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
+                self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
             except IndexError:
                 break
 
-- 
2.43.0


From 3f575e8e2b0740a87ee750e2dd1a2273445a30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:04 +0000
Subject: [PATCH 03/45] fix: deserialize each entry of an object array based on
 its own type

---
 src/pypsrp/serializer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 3be8497..880ece5 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -334,9 +334,15 @@ class Serializer(object):
                 if obj_meta is not None:
                     metadata = obj_meta
                     if is_list:
-                        metadata = ListMeta(list_value_meta=metadata)
+                        # An array of any object has no common entry type
+                        any_entry = obj_type in ["System.Object", "System.Management.Automation.PSObject"]
+                        metadata = ListMeta() if any_entry else ListMeta(list_value_meta=metadata)
                     break
 
+            if isinstance(metadata, ListMeta) and metadata.list_value_meta.tag == "*":
+                # Each entry needs to be deserialized based on its own type
+                metadata.list_value_meta = None
+
         # we were unable to find the complex object type so just return the
         # element
         obj: typing.Any
-- 
2.43.0


From 3c2923c68758a882510d1e21e49f40438e08aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:14 +0000
Subject: [PATCH 04/45] fix: escape and unescape property names

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 880ece5..e8325a3 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -467,7 +467,7 @@ class Serializer(object):
             prop_keys.sort()
             for key in prop_keys:
                 prop = getattr(value, prop_name)[key]
-                self._create_obj(parent, prop, key=key)
+                self._create_obj(parent, prop, key=self._serialize_string(key))
 
         set_properties("MS", "extended_properties")
         set_properties("Props", "adapted_properties")
@@ -685,12 +685,12 @@ class Serializer(object):
                 obj.types = self.tn[obj_property.attrib["RefId"]]
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
-                    key = adapted_property.attrib["N"]
+                    key = self._deserialize_string(adapted_property.attrib["N"])
                     value = self.deserialize(adapted_property, clear=False)
                     obj.adapted_properties[key] = value
             elif obj_property.tag == "MS":
                 for extended_property in obj_property:
-                    key = extended_property.attrib["N"]
+                    key = self._deserialize_string(extended_property.attrib["N"])
                     value = self.deserialize(extended_property, clear=False)
                     obj.extended_properties[key] = value
             elif obj_property.tag == "ToString":
-- 
2.43.0


From 10a066c170d795cedbe933443ad53fd358260f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:09 +0000
Subject: [PATCH 05/45] fix: deserialize an empty byte array

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index e8325a3..0fae344 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -210,7 +210,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From cce86c7fcc365db0931d9746fec816c17818feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:32 +0000
Subject: [PATCH 06/45] fix: keep waiting for the pool when the server has
 nothing to send yet

---
 src/pypsrp/powershell.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..651f502 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -736,7 +736,14 @@ class RunspacePool(object):
             if pipeline is not None:
                 command_id = pipeline._command_id
 
-        response = self.shell.receive("stdout", command_id=command_id, timeout=timeout)[2]["stdout"]
+        try:
+            response = self.shell.receive("stdout", command_id=command_id, timeout=timeout)[2]["stdout"]
+        except WSManFaultError as err:
+            # if a pool receive times out then the server has nothing to send
+            # yet, the callers will continue waiting as needed
+            if id is None and err.code == 2150858793:
+                return []
+            raise
         return self._parse_responses(response, pipeline)
 
     def _parse_responses(
-- 
2.43.0


From 22497b7b2d811eb42608317d1abf181d44d33f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:13 +0000
Subject: [PATCH 07/45] fix: pipeline input that is falsy, empty or contains
 None is sent in full and ended once

---
 src/pypsrp/powershell.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 651f502..b98f320 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1236,7 +1236,7 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
-        no_input = input is None or not input
+        no_input = input is None
         apartment_state = apartment_state or self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
@@ -1267,18 +1267,21 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
-                if not isinstance(next_input, list):
-                    next_input = [next_input]
-
-                input_msgs: typing.List[ComplexObject] = [PipelineInput(data=d) for d in next_input]
-
-                try:
-                    next_input = next(input)
-                except StopIteration:
+            no_more_input = object()
+            next_input = next(input, no_more_input)
+            end_of_input = False
+            while not end_of_input:
+                input_msgs: typing.List[ComplexObject] = []
+                if next_input is not no_more_input:
+                    if not isinstance(next_input, list):
+                        next_input = [next_input]
+
+                    input_msgs.extend(PipelineInput(data=d) for d in next_input)
+                    next_input = next(input, no_more_input)
+
+                if next_input is no_more_input:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
+                    end_of_input = True
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
-- 
2.43.0


From 462f0451df85e7b0ea50f52c98925f5c829eb49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:13 +0000
Subject: [PATCH 08/45] fix: an explicit STA apartment state for a pipeline is
 not replaced by the pool's

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index b98f320..68c200a 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1237,7 +1237,8 @@ class PowerShell(object):
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
         no_input = input is None
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        if apartment_state is None:
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From d9c53672c8ffc6c3eefffca022ebffabe4bbecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:13 +0000
Subject: [PATCH 09/45] fix: RunspacePool.open sends every fragment of large
 application arguments

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 68c200a..e2cbd8b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -565,6 +565,10 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # send what did not fit into the creation message
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive())
-- 
2.43.0


From 8d7725714e4245dc9ca1551a63e333c3506328e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:31 +0000
Subject: [PATCH 10/45] fix: invoking a pipeline does not turn its last command
 into a statement end

---
 src/pypsrp/complex_objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..f710d46 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -509,8 +509,6 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
         for command in self.commands:
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
@@ -520,6 +518,10 @@ class Pipeline(ComplexObject):
                 statements.append(current_statement)
                 current_statement = []
 
+        # the last command is always the end of a statement
+        if current_statement:
+            statements.append(current_statement)
+
         return statements
 
 
-- 
2.43.0


From cbc2d7eab7d285d6c3dbca916afbe1aace31ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:40 +0000
Subject: [PATCH 11/45] fix: objects only share a type name reference when all
 their type names match

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 0fae344..0a603a4 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -825,12 +825,12 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        type_names = tuple(types)
+        ref_id = self.tn.get(type_names, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[type_names] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From ecc3aeed252b99e5ae133982a27c2cb0053c5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:33 +0000
Subject: [PATCH 12/45] fix: a repeated object used as a named property keeps
 its name

---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 0a603a4..8353089 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -849,6 +849,8 @@ class Serializer(object):
             for ref, value in self.obj.items():
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
+                    if key is None and meta is not None:
+                        key = meta.name
                     if key is not None:
                         sub_element.attrib["N"] = key
                     return
-- 
2.43.0


From 220f4192165162bb00a961862d929d41709ed20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:51 +0000
Subject: [PATCH 13/45] fix: queues can be command arguments and serializing
 does not empty queues and stacks

---
 src/pypsrp/complex_objects.py |  6 +-----
 src/pypsrp/serializer.py      | 11 +++++++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index f710d46..e2ef75c 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -2,7 +2,6 @@
 # MIT License (see LICENSE or https://opensource.org/licenses/MIT)
 
 import typing
-from copy import deepcopy
 
 from pypsrp._utils import to_string, version_equal_or_newer
 
@@ -510,10 +509,7 @@ class Pipeline(ComplexObject):
         current_statement = []
 
         for command in self.commands:
-            # need to use deepcopy as the values can be appended to multiple
-            # parents and in lxml that removes it from the original parent,
-            # whereas this will create a copy of the statement for each parent
-            current_statement.append(deepcopy(command))
+            current_statement.append(command)
             if command.end_of_statement:
                 statements.append(current_statement)
                 current_statement = []
diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 8353089..9425095 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -484,10 +484,14 @@ class Serializer(object):
             metadata = QueueMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
+        # drain a copy so that the caller's queue keeps its entries
+        remaining = copy(values)
+        remaining.queue = copy(values.queue)
+
         que = ET.SubElement(obj, "QUE")
         while True:
             try:
-                value = values.get(block=False)
+                value = remaining.get(block=False)
                 self.serialize(value, copy(metadata.list_value_meta), parent=que, clear=False)
             except Empty:
                 break
@@ -502,10 +506,13 @@ class Serializer(object):
         obj = ET.Element("Obj", RefId=self._get_obj_id())
         self._create_tn(obj, metadata.list_types)
 
+        # pop from a copy so that the caller's list keeps its entries
+        remaining = copy(values)
+
         stk = ET.SubElement(obj, "STK")
         while True:
             try:
-                value = values.pop()
+                value = remaining.pop()
                 self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
             except IndexError:
                 break
-- 
2.43.0


From 1ed01f2b7a1f4fcbadcd067785665b7482f579ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:39 +0000
Subject: [PATCH 14/45] fix: serializing an object does not fix the type of its
 untyped properties

---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 9425095..8f7ff68 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -100,6 +100,8 @@ class Serializer(object):
 
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
+            # the metadata belongs to the object being serialized and is used again, do not fix its tag to this value
+            metadata = copy(metadata)
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
                 value = value.value
-- 
2.43.0


From 2ad2e74c22be8f366b625bd0ce717d165510dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:09 +0000
Subject: [PATCH 15/45] fix: fragments fit the payload size the connection
 currently has

---
 src/pypsrp/powershell.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index e2cbd8b..3bc9c15 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -175,7 +175,7 @@ class RunspacePool(object):
         self._min_runspaces = min_runspaces
         self._max_runspaces = max_runspaces
         self._serializer = Serializer()
-        self._fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
+        self._pool_fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
         self._exchange_key: typing.Optional[rsa.RSAPrivateKeyWithSerialization] = None
         self._key_exchanged = False
         self._new_client = False
@@ -190,6 +190,12 @@ class RunspacePool(object):
         """
         return self._application_private_data
 
+    @property
+    def _fragmenter(self) -> "Fragmenter":
+        # The payload size of the connection can change at any time, fragments must fit the one currently set.
+        self._pool_fragmenter.update_max_size(self.connection.max_payload_size)
+        return self._pool_fragmenter
+
     @property
     def min_runspaces(self) -> int:
         return self._min_runspaces
@@ -854,7 +860,6 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size
 
     def _process_runspacepool_init_data(
         self,
@@ -1655,9 +1660,15 @@ class Fragmenter(object):
     ) -> None:
         self.incoming_buffer: typing.Dict[int, typing.Dict] = {}
         self.outgoing_counter = 1
-        self.max_size = max_size - 21  # take away the fragment header size
+        self.update_max_size(max_size)
         self.serializer = serializer
 
+    def update_max_size(
+        self,
+        max_size: int,
+    ) -> None:
+        self.max_size = max_size - 21  # take away the fragment header size
+
     def fragment(
         self,
         data: ComplexObject,
-- 
2.43.0


From 6d7480cdf3f5d1f9b2295111d096a6fa08b9d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:45 +0000
Subject: [PATCH 16/45] fix: leave room for the shell's options in the request
 that creates a runspace pool

---
 src/pypsrp/powershell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 3bc9c15..f8a3e7a 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -561,7 +561,10 @@ class RunspacePool(object):
             application_arguments,
         )
         msgs = [session_capability, init_runspace_pool]
-        fragments = self._fragmenter.fragment_multiple(msgs, self.id)
+        # the shell's own options and elements take up some of the room the create request has for the payload
+        fragmenter = self._fragmenter
+        fragmenter.update_max_size(self.connection.max_payload_size - 192)
+        fragments = fragmenter.fragment_multiple(msgs, self.id)
 
         open_content = ET.Element("creationXml", xmlns="http://schemas.microsoft.com/powershell")
         open_content.text = base64.b64encode(fragments.pop(0)).decode("utf-8")
-- 
2.43.0


From 68cd97d296c5f7fc07602dbd0fa02db99196a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:20 +0000
Subject: [PATCH 17/45] fix: CultureInfo can be serialized

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index e2ef75c..1011a27 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1612,7 +1612,7 @@ class CultureInfo(ComplexObject):
         self.lcid = kwargs.get("lcid")
         self.name = kwargs.get("name")
         self.display_name = kwargs.get("display_name")
-        self.ieft_language_tag = kwargs.get("ietf_language_tag")
+        self.ietf_language_tag = kwargs.get("ietf_language_tag")
         self.three_letter_iso_name = kwargs.get("three_letter_iso_name")
         self.three_letter_windows_name = kwargs.get("three_letter_windows_name")
         self.two_letter_iso_language_name = kwargs.get("two_letter_iso_language_name")
-- 
2.43.0


From 60c0c33163101eed39639d0e7cca7f7211cb7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:09 +0000
Subject: [PATCH 18/45] fix: stop and connect address the pipeline by the
 command id the server gave it

---
 src/pypsrp/powershell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f8a3e7a..0f3eb36 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1176,7 +1176,7 @@ class PowerShell(object):
             )
         rsp = NAMESPACES["rsp"]
 
-        connect = ET.Element("{%s}Connect" % rsp, CommandId=self.id)
+        connect = ET.Element("{%s}Connect" % rsp, CommandId=self._command_id or self.id)
 
         self.runspace_pool.connection.connect(
             self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
@@ -1534,7 +1534,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self._command_id or self.id).upper())
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From 91a87efe35a022a1aed0b8c9bfd308e990cb5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:32:42 +0000
Subject: [PATCH 19/45] fix: keep the HTTP status and content of an error
 response that is XML but no fault

---
 src/pypsrp/wsman.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..0084fb4 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -499,7 +499,7 @@ class WSMan(object):
         except WinRMTransportError as err:
             try:
                 # try and parse the XML and get the WSManFault
-                raise self._parse_wsman_fault(err.response_text)
+                wsman_fault = self._parse_wsman_fault(err.response_text)
             except ET.ParseError:
                 # no XML message is present so not a WSManFault error
                 log.error(
@@ -508,6 +508,11 @@ class WSMan(object):
                 )
                 raise err
 
+            if all(detail is None for detail in wsman_fault.args):
+                # the content is XML but not a fault, e.g. the error page of a proxy
+                raise err
+            raise wsman_fault
+
         response_xml = ET.fromstring(response)
         relates_to_et = response_xml.find("s:Header/wsa:RelatesTo", namespaces=NAMESPACES)
         relates_to = relates_to_et.text if relates_to_et is not None else ""
-- 
2.43.0


From 3294d29a25991ef744d7c2c63d69a5ff2deaad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:32:50 +0000
Subject: [PATCH 20/45] fix: a pipeline whose stop request failed is still
 running

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 0f3eb36..87806ff 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1534,7 +1534,12 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self._command_id or self.id).upper())
+        try:
+            self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self._command_id or self.id).upper())
+        except Exception:
+            # not stopped as far as is known, it can still be polled or stopped again
+            self.state = PSInvocationState.RUNNING
+            raise
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From 18f1291ad485e8827f8b48f319abe8f3f9bb3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:10 +0000
Subject: [PATCH 21/45] fix: exchange_keys called again after a failure or
 timeout completes the exchange instead of returning without a key

---
 src/pypsrp/powershell.py | 43 ++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 87806ff..47fd37a 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -177,6 +177,7 @@ class RunspacePool(object):
         self._serializer = Serializer()
         self._pool_fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
         self._exchange_key: typing.Optional[rsa.RSAPrivateKeyWithSerialization] = None
+        self._public_key_sent = False
         self._key_exchanged = False
         self._new_client = False
         self._ci_counter = 0
@@ -590,16 +591,30 @@ class RunspacePool(object):
         happen.
         """
         log.info("Starting key exchange with remote host")
-        if self._key_exchanged or self._exchange_key is not None:
-            # key is already exchanged or we are still in the processes of
-            # exchanging it, no need to run again
+        if self._key_exchanged:
+            # key is already exchanged, no need to run again
+            return
+
+        self._send_public_key()
+
+        start = time.time()
+        while not self._key_exchanged:
+            elapsed = int((time.time() - start) * 1000)
+            if elapsed > self.session_key_timeout_ms:
+                raise InvalidPSRPOperation("Timeout while waiting for key exchange")
+            self._receive()
+
+    def _send_public_key(self) -> None:
+        if self._key_exchanged or self._public_key_sent:
+            # the server already has our key, its answer is still to come
             return
 
         # Generate a unique RSA key pair for use in this Pool only
-        self._exchange_key = rsa.generate_private_key(
-            public_exponent=65537,
-            key_size=2048,
-        )
+        if self._exchange_key is None:
+            self._exchange_key = rsa.generate_private_key(
+                public_exponent=65537,
+                key_size=2048,
+            )
         public_numbers = self._exchange_key.public_key().public_numbers()
         exponent = struct.pack("<I", public_numbers.e)
         modulus = b""
@@ -615,13 +630,7 @@ class RunspacePool(object):
         fragments = self._fragmenter.fragment(msg, self.id)
         for fragment in fragments:
             self.shell.send("stdin", fragment)
-
-        start = time.time()
-        while not self._key_exchanged:
-            elapsed = int((time.time() - start) * 1000)
-            if elapsed > self.session_key_timeout_ms:
-                raise InvalidPSRPOperation("Timeout while waiting for key exchange")
-            self._receive()
+        self._public_key_sent = True
 
     def reset_runspace_state(self) -> None:
         """
@@ -927,12 +936,16 @@ class RunspacePool(object):
         key_msg = typing.cast(EncryptedSessionKey, message.data)
 
         log.debug("Received EncryptedSessionKey response")
+        if self._exchange_key is None:
+            # a repeated answer, the key is already exchanged
+            return
+
         enc_sess_key = base64.b64decode(key_msg.session_key)
 
         # strip off Win32 Crypto Blob Header and reverse the bytes
         encrypted_key = enc_sess_key[12:][::-1]
         pad_method = padding.PKCS1v15()
-        decrypted_key = self._exchange_key.decrypt(encrypted_key, pad_method)  # type: ignore[union-attr] # Will be set
+        decrypted_key = self._exchange_key.decrypt(encrypted_key, pad_method)
 
         iv = b"\x00" * 16  # PSRP doesn't use an IV
         algorithm = algorithms.AES(decrypted_key)
-- 
2.43.0


From 92613cbb310995a89016621901852b8aba081921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:20 +0000
Subject: [PATCH 22/45] fix: answer a key exchange started by the server

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 47fd37a..68c4b56 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -780,7 +780,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: lambda m: self._send_public_key(),
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
-- 
2.43.0


From b1e619af3d6c1a2d4c275f295701343328432f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:38 +0000
Subject: [PATCH 23/45] fix: had_errors describes the most recent run of a
 pipeline

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 68c4b56..860e372 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1571,6 +1571,7 @@ class PowerShell(object):
         if cmd_id is not None:
             self._command_id = cmd_id.text or ""
         self.state = PSInvocationState.RUNNING
+        self.had_errors = False
 
         # send the remaining fragments with the Send message
         for fragment in fragments:
-- 
2.43.0


From 19e4085a990318cf802fc4dd7ee5ec5e48e4c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:01 +0000
Subject: [PATCH 24/45] fix: disconnecting a pool leaves pipelines that are not
 running in their state

---
 src/pypsrp/powershell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 860e372..387e6b8 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -387,7 +387,9 @@ class RunspacePool(object):
         self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
         self.state = RunspacePoolState.DISCONNECTED
         for pipeline in self.pipelines.values():
-            pipeline.state = PSInvocationState.DISCONNECTED
+            # a pipeline that has not started or has already ended stays as it is
+            if pipeline.state in [PSInvocationState.RUNNING, PSInvocationState.STOPPING]:
+                pipeline.state = PSInvocationState.DISCONNECTED
 
     def get_available_runspaces(self) -> int:
         """
-- 
2.43.0


From 6e72fef91767635794c054791132080e94a2576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:33 +0000
Subject: [PATCH 25/45] fix: encrypt with a fresh security context after the
 connection was lost or authenticated again

---
 src/pypsrp/wsman.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0084fb4..b54716c 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -863,6 +863,11 @@ class _TransportHTTP(object):
 
                 self.encryption = WinRMEncryption(self.session.auth.contexts[hostname], protocol)  # type: ignore[union-attr] # This should not happen
 
+            elif self.encryption and self.encryption.context is not self.session.auth.contexts[hostname]:  # type: ignore[union-attr] # This should not happen
+                # The last request was authenticated again, its context
+                # replaces the one of the lost connection.
+                self.encryption = WinRMEncryption(self.session.auth.contexts[hostname], self.encryption.protocol)  # type: ignore[union-attr] # This should not happen
+
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("Sending message on attempt %d: %s" % (attempt, message.decode("utf-8")))
             # for testing, keep commented out
@@ -891,15 +896,20 @@ class _TransportHTTP(object):
                     prep_request,
                     timeout=timeout,
                 )
-            except (requests.ReadTimeout, requests.ConnectTimeout) as e:
-                log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
-                if attempt == retries_on_read_timeout:
-                    raise
-
+            except WinRMTransportError:
+                raise
+            except Exception as e:
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
 
+                if not isinstance(e, (requests.ReadTimeout, requests.ConnectTimeout)):
+                    raise
+
+                log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
+                if attempt == retries_on_read_timeout:
+                    raise
+
                 attempt += 1
                 time.sleep(self.reconnection_backoff * (2**attempt - 1))
 
-- 
2.43.0


From 694283cc7d214c00887f40e859ba294fd1b0bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:01 +0000
Subject: [PATCH 26/45] fix: a pipeline that is run again is no longer one
 connected to remotely

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 387e6b8..4179591 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1574,6 +1574,7 @@ class PowerShell(object):
             self._command_id = cmd_id.text or ""
         self.state = PSInvocationState.RUNNING
         self.had_errors = False
+        self._from_disconnect = False
 
         # send the remaining fragments with the Send message
         for fragment in fragments:
-- 
2.43.0


From 87c477076c1dc6091c1c0ecb39f2d848006d539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:16 +0000
Subject: [PATCH 27/45] fix: refuse to ask for runspaces or exchange keys on a
 pool that is not open

---
 src/pypsrp/powershell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 4179591..59d7b86 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -399,6 +399,9 @@ class RunspacePool(object):
         :return: The number of available runspaces in the pool
         """
 
+        if self.state != RunspacePoolState.OPENED:
+            raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "get available runspaces")
+
         def response_handler(response):
             self._max_runspaces = response
             return response
@@ -596,6 +599,8 @@ class RunspacePool(object):
         if self._key_exchanged:
             # key is already exchanged, no need to run again
             return
+        elif self.state != RunspacePoolState.OPENED:
+            raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "exchange keys")
 
         self._send_public_key()
 
-- 
2.43.0


From 0cf9d19348cb59bb2763c5ed32ddf9036f45d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:49 +0000
Subject: [PATCH 28/45] fix: refuse to start a pipeline on a pool that is not
 open

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 59d7b86..f0a620b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1268,6 +1268,10 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
+        pool_state = self.runspace_pool.state
+        if pool_state != RunspacePoolState.OPENED:
+            raise InvalidRunspacePoolStateError(pool_state, RunspacePoolState.OPENED, "start a PowerShell pipeline")
+
         no_input = input is None
         if apartment_state is None:
             apartment_state = self.runspace_pool.apartment_state
-- 
2.43.0


From b0696cb3997ffad6bbbd40b507c51575db1951e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:58 +0000
Subject: [PATCH 29/45] fix: a pool that fails to open in a with statement does
 not leave its shell behind

---
 src/pypsrp/powershell.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f0a620b..c2f9554 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -279,7 +279,17 @@ class RunspacePool(object):
         del self.ci_table[ci]
 
     def __enter__(self) -> "RunspacePool":
-        self.open()
+        is_new = self.state == RunspacePoolState.BEFORE_OPEN
+        try:
+            self.open()
+        except Exception:
+            # the block is not entered so nothing else will remove the shell if it was already created
+            if is_new:
+                try:
+                    self.shell.close()
+                except Exception:
+                    log.debug("Failed to close the shell of a Runspace Pool that did not open", exc_info=True)
+            raise
         return self
 
     def __exit__(
-- 
2.43.0


From ba059da7ca8a1fc078821e94edb9700fd1fcf2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:04 +0000
Subject: [PATCH 30/45] fix: opening a pool the server closes instead is an
 error

---
 src/pypsrp/powershell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index c2f9554..a2e8813 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -595,9 +595,13 @@ class RunspacePool(object):
             self.shell.send("stdin", fragment)
 
         responses = []
-        while self.state == RunspacePoolState.NEGOTIATION_SENT:
+        final_states = [RunspacePoolState.OPENED, RunspacePoolState.CLOSED, RunspacePoolState.BROKEN]
+        while self.state not in final_states:
             responses.extend(self._receive())
 
+        if self.state != RunspacePoolState.OPENED:
+            raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "use a new Runspace Pool")
+
     def exchange_keys(self) -> None:
         """
         Initiate a key exchange with the server that is required when dealing
-- 
2.43.0


From d8c61d9aa85e1ef889ff07d8c34cc2a17b815d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:07 +0000
Subject: [PATCH 31/45] fix: asking for the available runspaces no longer
 overwrites the recorded maximum

---
 src/pypsrp/powershell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a2e8813..175bf0f 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -413,7 +413,6 @@ class RunspacePool(object):
             raise InvalidRunspacePoolStateError(self.state, RunspacePoolState.OPENED, "get available runspaces")
 
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From cc1e6d0af71658194057485286a128f582e3f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:16 +0000
Subject: [PATCH 32/45] fix: record runspace limits when the server confirms
 them and keep the messages that come with a refusal

---
 src/pypsrp/powershell.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 175bf0f..5840dbd 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -220,8 +220,8 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set minimum runspaces")
+            if response:
+                self._min_runspaces = min_runspaces
             return response
 
         ci = self._ci_counter
@@ -234,8 +234,8 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-        self._min_runspaces = min_runspaces
-        del self.ci_table[ci]
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set minimum runspaces")
 
     @property
     def max_runspaces(self) -> int:
@@ -261,8 +261,8 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set maximum runspaces")
+            if response:
+                self._max_runspaces = max_runspaces
             return response
 
         ci = self._ci_counter
@@ -275,8 +275,8 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-        self._max_runspaces = max_runspaces
-        del self.ci_table[ci]
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set maximum runspaces")
 
     def __enter__(self) -> "RunspacePool":
         is_new = self.state == RunspacePoolState.BEFORE_OPEN
@@ -675,8 +675,6 @@ class RunspacePool(object):
             )
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to reset runspace state")
             return response
 
         ci = self._ci_counter
@@ -689,7 +687,8 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-        del self.ci_table[ci]
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to reset runspace state")
 
     def serialize(
         self,
-- 
2.43.0


From 0f7e185b9a9d7165d587f7215f4eef38a897e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:04:23 +0000
Subject: [PATCH 33/45] fix: get_runspace_pools() listed shells of other kinds,
 such as WinRS shells, as runspace pools

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 5840dbd..2397c84 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -511,6 +511,10 @@ class RunspacePool(object):
         runspace_pools = []
         for shell in shells:
             shell_id: str = shell.find("rsp:ShellId", NAMESPACES).text  # type: ignore # Mandated by spec
+            resource_uri = shell.findtext("rsp:ResourceUri", namespaces=NAMESPACES)
+            if resource_uri and not resource_uri.lower().startswith("http://schemas.microsoft.com/powershell/"):
+                continue  # not a Runspace Pool, e.g. a WinRS shell
+
             pool = RunspacePool(connection)
             pool.id = shell_id
             pool.shell.id = shell_id
-- 
2.43.0


From 72bf37239b6d09080f0b4e50952d04524e9de0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:04:47 +0000
Subject: [PATCH 34/45] fix: a pool found by get_runspace_pools() was addressed
 under the default configuration, whatever its own

---
 src/pypsrp/powershell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 2397c84..7ab8792 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -519,6 +519,8 @@ class RunspacePool(object):
             pool.id = shell_id
             pool.shell.id = shell_id
             pool.shell.opened = True
+            if resource_uri:
+                pool.shell.resource_uri = resource_uri  # it may have another configuration than the default one
             pool._new_client = True
 
             # Seems like the server sends all pools not just disconnected but
-- 
2.43.0


From 2a3a05a46ff126c6a065cc77e990bba19ebf001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:29:11 +0000
Subject: [PATCH 35/45] fix: fetch() could return with a truncated file after a
 short write, and left its temporary file when closing it failed

---
 src/pypsrp/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..f6bc81f 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -272,8 +272,10 @@ class Client(object):
 
             temp_file, path = tempfile.mkstemp()
             try:
-                file_bytes = base64.b64decode(powershell.output[0])
-                os.write(temp_file, file_bytes)
+                # the file object makes sure that all the bytes are written and closes the descriptor
+                with os.fdopen(temp_file, "wb") as fd:
+                    file_bytes = base64.b64decode(powershell.output[0])
+                    fd.write(file_bytes)
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
@@ -287,7 +289,6 @@ class Client(object):
                     )
                 shutil.copy(path, dest)
             finally:
-                os.close(temp_file)
                 os.remove(path)
 
     def close(self) -> None:
-- 
2.43.0


From 9f8c381ebecd3d881ef78ce4ef427bfbf74123d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:17 +0000
Subject: [PATCH 36/45] fix: is_alive() opened new connections when the
 connection goes through a proxy

---
 src/pypsrp/_pool_manager.py | 44 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 81c7516..d880c8b 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -50,7 +50,23 @@ class DisableNewConnectionsContext:
         return None
 
 
-class HTTPSAdapterWithKeyPassword(requests.adapters.HTTPAdapter):
+class HTTPAdapterWithConnectionControl(requests.adapters.HTTPAdapter):
+    """HTTPAdapter whose connections, direct or through a proxy, honour DisableNewConnectionsContext."""
+
+    def init_poolmanager(self, *args, **kwargs):
+        super().init_poolmanager(*args, **kwargs)
+        _wrap_pool_classes(self.poolmanager)
+
+    def proxy_manager_for(self, proxy, **proxy_kwargs):
+        is_new = proxy not in self.proxy_manager
+        manager = super().proxy_manager_for(proxy, **proxy_kwargs)
+        if is_new:
+            _wrap_pool_classes(manager)
+
+        return manager
+
+
+class HTTPSAdapterWithKeyPassword(HTTPAdapterWithConnectionControl):
 
     def __init__(
         self,
@@ -116,6 +132,19 @@ def _create_connection_pool(pool):
     pool.ConnectionCls = _wrap(pool.ConnectionCls, after=_create_new_connection_with_failure)
 
 
+def _wrap_pool_classes(manager):
+    # pool_classes_by_scheme stores the urllib3 pool types used when creating
+    # the connection pool for http/https. We wrap the __init__ method so we can
+    # inject our custom ConnectionCls that wraps the connect method when
+    # created.
+    # Copy the dict so we only mutate this manager's instance, not the
+    # module-level dict shared by all urllib3 PoolManager instances.
+    pool_classes = dict(manager.pool_classes_by_scheme)
+    for scheme, pool_cls in list(pool_classes.items()):
+        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
+    manager.pool_classes_by_scheme = pool_classes
+
+
 def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does not have typing stubs for urllib3
     *,
     max_retries: Retry,
@@ -129,17 +158,6 @@ def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does
             _pypsrp_key_password=key_password,
         )
     else:
-        adapter = requests.adapters.HTTPAdapter(max_retries=max_retries)
-
-    # pool_classes_by_scheme stores the urllib3 pool types used when creating
-    # the connection pool for http/https. We wrap the __init__ method so we can
-    # inject our custom ConnectionCls that wraps the connect method when
-    # created.
-    # Copy the dict so we only mutate this adapter's instance, not the
-    # module-level dict shared by all urllib3 PoolManager instances.
-    pool_classes = dict(adapter.poolmanager.pool_classes_by_scheme)
-    for scheme, pool_cls in list(pool_classes.items()):
-        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
-    adapter.poolmanager.pool_classes_by_scheme = pool_classes
+        adapter = HTTPAdapterWithConnectionControl(max_retries=max_retries)
 
     return adapter
-- 
2.43.0


From c02b9105d22f10e11cac7e9ddeb172af8b7f6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:17 +0000
Subject: [PATCH 37/45] fix: is_alive() raised when the answer timed out while
 being read or was cut short

---
 src/pypsrp/powershell.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 7ab8792..535be1b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -745,7 +745,13 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.ConnectionError,
+            requests.exceptions.Timeout,
+            requests.exceptions.ChunkedEncodingError,
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From fac467706196cb0854586e4b0e5593e0d394065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:17 +0000
Subject: [PATCH 38/45] fix: the encryption context stayed out of step with the
 server after a message it could not decrypt

---
 src/pypsrp/wsman.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index b54716c..42843be 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -863,11 +863,6 @@ class _TransportHTTP(object):
 
                 self.encryption = WinRMEncryption(self.session.auth.contexts[hostname], protocol)  # type: ignore[union-attr] # This should not happen
 
-            elif self.encryption and self.encryption.context is not self.session.auth.contexts[hostname]:  # type: ignore[union-attr] # This should not happen
-                # The last request was authenticated again, its context
-                # replaces the one of the lost connection.
-                self.encryption = WinRMEncryption(self.session.auth.contexts[hostname], self.encryption.protocol)  # type: ignore[union-attr] # This should not happen
-
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("Sending message on attempt %d: %s" % (attempt, message.decode("utf-8")))
             # for testing, keep commented out
@@ -897,10 +892,19 @@ class _TransportHTTP(object):
                     timeout=timeout,
                 )
             except WinRMTransportError:
+                if self.encryption and self.encryption.context is not self.session.auth.contexts[hostname]:  # type: ignore[union-attr] # This should not happen
+                    # The server asked to authenticate again and could not
+                    # decrypt this message, encrypted for the lost connection.
+                    # The new context is out of step now so start afresh.
+                    self.encryption = None
+                    self.session.close()
                 raise
             except Exception as e:
                 # On a failure the encryption state is invalidated and needs to
-                # be recreated after authentication is done.
+                # be recreated after authentication is done, on a connection of
+                # its own as the old context can be out of step with the host.
+                if self.encryption:
+                    self.session.close()
                 self.encryption = None
 
                 if not isinstance(e, (requests.ReadTimeout, requests.ConnectTimeout)):
-- 
2.43.0


From c11acf84b04d486e5d4c93f3b16619fb6ec69146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:17 +0000
Subject: [PATCH 39/45] fix: an unencrypted response was accepted when message
 encryption is required

---
 src/pypsrp/wsman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 42843be..549c8d4 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -932,6 +932,8 @@ class _TransportHTTP(object):
             boundary = re.search("boundary=[" '|\\"](.*)[' '|\\"]', response.headers["content-type"]).group(1)  # type: ignore[union-attr] # This should not happen
             response_content = self.encryption.unwrap_message(response.content, to_unicode(boundary))  # type: ignore[union-attr] # This should not happen
             response_text = to_string(response_content)
+        elif self.wrap_required and request.body and response.ok and response.content:
+            raise WinRMError("The server sent an unencrypted response but message encryption is required")
         else:
             response_content = response.content
             response_text = response.text if response_content else ""
-- 
2.43.0


From 9d5d6ca3ca5de65c4b438b0d4337bf7f6e17f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:33:13 +0000
Subject: [PATCH 40/45] fix: the password of a client certificate's key was not
 used for connections through a proxy

---
 src/pypsrp/_pool_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index d880c8b..02681b3 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -92,6 +92,13 @@ class HTTPSAdapterWithKeyPassword(HTTPAdapterWithConnectionControl):
             **pool_kwargs,
         )
 
+    def proxy_manager_for(self, proxy, **proxy_kwargs):
+        return super().proxy_manager_for(
+            proxy,
+            key_password=self.__key_password,
+            **proxy_kwargs,
+        )
+
 
 def _wrap(
     func: t.Callable[..., T],
-- 
2.43.0


From 227f5d84d66dd104ae40d16332f71cd9d519f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:33:13 +0000
Subject: [PATCH 41/45] fix: a server that does not offer the chosen scheme
 raised ValueError, not AuthenticationError

---
 src/pypsrp/negotiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 784226a..17fac82 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -106,7 +106,7 @@ class HTTPNegotiateAuth(AuthBase):
                 auth_provider = response_auth_header_l
 
             elif response_auth_header_l != "negotiate":
-                raise ValueError(
+                raise AuthenticationError(
                     "Server responded with the auth protocol '%s' which is incompatible with the "
                     "specified auth_provider '%s'" % (response_auth_header, auth_provider)
                 )
-- 
2.43.0


From e34d4db738b04734ff303d91e739cb9bc17f7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:33:13 +0000
Subject: [PATCH 42/45] fix: a request sent through a proxy was repeated when
 the connection broke before the response

---
 src/pypsrp/_pool_manager.py | 13 +++++++++++++
 src/pypsrp/wsman.py         |  5 ++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 02681b3..c24dbda 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -9,6 +9,7 @@ import types
 import typing as t
 
 import requests.adapters
+from requests.packages.urllib3.exceptions import ProxyError
 from requests.packages.urllib3.util.retry import Retry
 
 T = t.TypeVar("T")
@@ -50,6 +51,18 @@ class DisableNewConnectionsContext:
         return None
 
 
+class ConnectionRetry(Retry):
+    """Retry that never repeats a request once it was sent."""
+
+    def increment(self, method=None, url=None, response=None, error=None, *args, **kwargs):
+        # urllib3 reports a connection lost while waiting for the response as a
+        # failure to connect if it went through a proxy.
+        if isinstance(error, ProxyError) and isinstance(error.original_error, ConnectionError):
+            raise error
+
+        return super().increment(method, url, response, error, *args, **kwargs)
+
+
 class HTTPAdapterWithConnectionControl(requests.adapters.HTTPAdapter):
     """HTTPAdapter whose connections, direct or through a proxy, honour DisableNewConnectionsContext."""
 
diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 549c8d4..fed20d1 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -13,7 +13,6 @@ import warnings
 import xml.etree.ElementTree as ET
 
 import requests
-from requests.packages.urllib3.util.retry import Retry
 
 from pypsrp import _pool_manager
 from pypsrp._utils import get_hostname, to_string, to_unicode
@@ -994,7 +993,7 @@ class _TransportHTTP(object):
             "status_forcelist": (425, 429, 503),
         }
         try:
-            retries = Retry(**retry_kwargs)
+            retries = _pool_manager.ConnectionRetry(**retry_kwargs)
         except TypeError:
             # Status was added in urllib3 >= 1.21 (Requests >= 2.14.0), remove
             # the status retry counter and try again. The user should upgrade
@@ -1003,7 +1002,7 @@ class _TransportHTTP(object):
                 "Using an older requests version that without support for status retries, ignoring.", exc_info=True
             )
             del retry_kwargs["status"]
-            retries = Retry(**retry_kwargs)
+            retries = _pool_manager.ConnectionRetry(**retry_kwargs)
 
         session.mount(
             "http://",
-- 
2.43.0


From d8daf3f6b12f506f9fefc5503181fc7e53e6e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:44 +0000
Subject: [PATCH 43/45] fix: refuse a PSRP fragment that is shorter than its
 header says

---
 src/pypsrp/powershell.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 535be1b..4e0c2bb 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1861,6 +1861,9 @@ class Fragment(object):
 
     @staticmethod
     def unpack(data: bytes) -> typing.Tuple["Fragment", bytes]:
+        if len(data) < 21:
+            raise FragmentError("Fragment header is incomplete, expecting 21 bytes but only got %d" % len(data))
+
         object_id = struct.unpack(">Q", data[0:8])[0]
         fragment_id = struct.unpack(">Q", data[8:16])[0]
 
@@ -1870,6 +1873,10 @@ class Fragment(object):
 
         length = struct.unpack(">I", data[17:21])[0]
         fragment_data = data[21 : length + 21]
+        if len(fragment_data) != length:
+            raise FragmentError(
+                "Fragment data is incomplete, expecting %d bytes but only got %d" % (length, len(fragment_data))
+            )
 
         fragment = Fragment(object_id, fragment_id, fragment_data, start, end)
         return fragment, data[21 + length :]
-- 
2.43.0


From 5e4c71ae182b7b465c6683a1ad50b2a88918d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:44 +0000
Subject: [PATCH 44/45] fix: do not complete an object with what came with a
 damaged fragment

---
 src/pypsrp/powershell.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 4e0c2bb..0634a1b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1790,9 +1790,27 @@ class Fragmenter(object):
         self,
         data: bytes,
     ) -> typing.List[Message]:
+        object_ids: typing.Set[int] = set()
+        try:
+            fragments = self._join_fragments(data, object_ids)
+        except FragmentError:
+            # Nothing that came with a damaged fragment can be trusted, drop what is buffered for these objects so that
+            # a fragment received later on does not complete them.
+            for object_id in object_ids:
+                self.incoming_buffer.pop(object_id, None)
+            raise
+
+        return [Message.unpack(fragment, self.serializer) for fragment in fragments]
+
+    def _join_fragments(
+        self,
+        data: bytes,
+        object_ids: typing.Set[int],
+    ) -> typing.List[bytes]:
         fragments = []
         while data != b"":
             frag, data = Fragment.unpack(data)
+            object_ids.add(frag.object_id)
             incoming_buffer = self.incoming_buffer.get(frag.object_id)
             if incoming_buffer is None:
                 incoming_buffer = {"data": b"", "id": 0}
@@ -1816,8 +1834,7 @@ class Fragmenter(object):
                 incoming_buffer["data"] += frag.data
                 incoming_buffer["id"] += 1
 
-        messages = [Message.unpack(fragment, self.serializer) for fragment in fragments]
-        return messages
+        return fragments
 
     def _byte_iterator(
         self,
-- 
2.43.0


From 6c927fc125b84792416e69b7965584f8c63c0294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 45/45] fix: register the XML namespace prefixes once

ElementTree.register_namespace is not thread safe: two threads creating a WSMan
object at the same time could fail with a KeyError.
---
 src/pypsrp/wsman.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index fed20d1..049b5a9 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -73,6 +73,12 @@ NAMESPACES: typing.Dict[str, str] = {
     "pwsh": "http://schemas.microsoft.com/powershell",
 }
 
+# register well known namespace prefixes so ElementTree doesn't
+# randomly generate them, saving packet space. This changes state shared by all
+# threads so it is done just the once and not for every WSMan object.
+for _prefix, _uri in NAMESPACES.items():
+    ET.register_namespace(_prefix, _uri)
+
 
 class WSManAction(object):
     # WS-Management URIs
@@ -232,11 +238,6 @@ class WSMan(object):
         self.max_envelope_size = max_envelope_size
         self.operation_timeout = operation_timeout
 
-        # register well known namespace prefixes so ElementTree doesn't
-        # randomly generate them, saving packet space
-        for key, value in NAMESPACES.items():
-            ET.register_namespace(key, value)
-
         # This is the approx max size of a Base64 string that can be sent in a
         # SOAP message payload (PSRP fragment or send input data) to the
         # server. This value is dependent on the server's MaxEnvelopSizekb
-- 
2.43.0

