From 57612fb50f36ed44995ee85e6b1e9e10f01ebd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 01/54] fix: Pad.parse always raised TypeError instead of
 returning a Pad

---
 ccnpy/core/Pad.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccnpy/core/Pad.py b/ccnpy/core/Pad.py
index 8f60b27..452e46f 100755
--- a/ccnpy/core/Pad.py
+++ b/ccnpy/core/Pad.py
@@ -40,8 +40,10 @@ class Pad(OctetTlvType):
 
     @classmethod
     def parse(cls, tlv):
-        result = super().parse(tlv)
-        for b in result.value_bytes():
+        if tlv.type() != cls.class_type():
+            raise CannotParseError("Incorrect TLV type %r" % tlv.type())
+
+        for b in tlv.value():
             if b != 0:
-                raise ValueError(f'The value of a PAD must all be 0s, got: {result.value()}')
-        return result
+                raise ValueError(f'The value of a PAD must all be 0s, got: {tlv.value()}')
+        return cls(length=tlv.length())
-- 
2.43.0


From 7f59230f4a408761358aeec8a6d5b1115f667adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 02/54] fix: Vendor.parse accepted a TLV too short to hold the
 3-byte PEN

---
 ccnpy/flic/tlvs/Vendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 49a312c..32c10cc 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -67,7 +67,7 @@ class Vendor(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        if len(tlv) < 3:
+        if tlv.length() < 3:
             raise ValueError("A Vendor TLV must have a 3-byte PEN")
 
         pen = Tlv.array_to_number(tlv.value()[0:3])
-- 
2.43.0


From 0c590c04a2d02bc10fa6dc1fa79cb18590409c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 03/54] fix: Timestamp.milliseconds truncated instead of
 rounding, losing a millisecond on re-encoding

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..1878b6b 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -75,7 +75,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
+        msec = round(self.timestamp() * 1000)
         return msec
 
     def datetime(self):
-- 
2.43.0


From 50e8c58b095550549dda69afc1b9ad48565aa1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 04/54] fix: Tlv equality ignored the TLV type and the kind of
 byte buffer

---
 ccnpy/core/Tlv.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..fff8b2d 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -94,12 +94,9 @@ class Tlv(Serializable):
         return output
 
     def __eq__(self, other):
-        result = False
-        if len(self) == len(other):
-            if self.value() == other.value():
-                result = True
-
-        return result
+        if not isinstance(other, Tlv):
+            return False
+        return self._wire_format == other._wire_format
 
     def __hash__(self):
         return hash(self._wire_format.tobytes())
-- 
2.43.0


From 55495f73359797a8a80474f51881af5ee4ee7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 05/54] fix: integer and octet TLVs of different types compared
 equal, octet TLVs were not hashable

---
 ccnpy/core/TlvType.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/TlvType.py b/ccnpy/core/TlvType.py
index dd1fe93..a567706 100755
--- a/ccnpy/core/TlvType.py
+++ b/ccnpy/core/TlvType.py
@@ -132,7 +132,7 @@ class IntegerTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, IntegerTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
 
     def __hash__(self):
         return hash(self._tlv)
@@ -185,7 +185,10 @@ class OctetTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, OctetTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
+
+    def __hash__(self):
+        return hash(self._tlv)
 
     def __repr__(self):
         return DisplayFormatter.hexlify(self._value)
-- 
2.43.0


From 98b496b2720b7c95d36979e0edf1078e7b69c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 06/54] fix: Timestamp equality compared sub-millisecond floats
 and ignored the TLV type

---
 ccnpy/core/Timestamp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 1878b6b..1a7e57c 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,7 +40,12 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
-        return self.timestamp() == other.timestamp()
+        if not isinstance(other, Timestamp):
+            return False
+        return self._tlv == other._tlv
+
+    def __hash__(self):
+        return hash(self._tlv)
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
-- 
2.43.0


From d7c4f0277a9596e3ee07e3ced511bc612b466b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 07/54] fix: ValidationPayload equality depended on the kind of
 byte buffer

---
 ccnpy/core/ValidationPayload.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/ValidationPayload.py b/ccnpy/core/ValidationPayload.py
index 42e3fec..488d310 100755
--- a/ccnpy/core/ValidationPayload.py
+++ b/ccnpy/core/ValidationPayload.py
@@ -31,7 +31,9 @@ class ValidationPayload(TlvType):
         self._tlv = Tlv(self.class_type(), self._payload)
 
     def __eq__(self, other):
-        return self.payload() == other.payload()
+        if not isinstance(other, ValidationPayload):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "ValPld: %r" % DisplayFormatter.hexlify(self._payload)
-- 
2.43.0


From 8d9506260cb66665b63f778a617e130a24d2eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 08/54] fix: Name was unhashable (so unusable as a keystore
 key) and an empty Name differed from its own decoding

---
 ccnpy/core/Name.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..f708137 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,7 +95,12 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Name):
+            return False
+        return self._tlv == other._tlv
+
+    def __hash__(self):
+        return hash(self._tlv)
 
     def __str__(self):
         return "NAME: %r" % [f'{c.type()} = {c.value()}' for c in self._components]
-- 
2.43.0


From 43924a10704e701170a79d92c4b3776a63927d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 09/54] fix: iterating a Link changed what it compared equal to

---
 ccnpy/core/Link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..223fd65 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -69,7 +69,9 @@ class Link:
             self._wire_format.extend(Tlv(self.__T_OBJHASHRESTR, self._digest).serialize())
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Link):
+            return False
+        return self._wire_format == other._wire_format
 
     def __repr__(self):
         return "Link(%r, %r, %r)" % (self._name, self._keyid, self._digest)
-- 
2.43.0


From 2cb5a3dbe125cdd8bbce924e3001eb2c96522c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 10/54] fix: Vendor equality depended on the kind of payload
 buffer

---
 ccnpy/flic/tlvs/Vendor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 32c10cc..a785157 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -46,9 +46,9 @@ class Vendor(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        if not isinstance(other, Vendor):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "Vendor: pen: %r, payload: %r" % (self._pen, DisplayFormatter.hexlify(self._payload))
-- 
2.43.0


From 8f0d754b91d06f56f5a21e271e1002a2bf8a9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 11/54] fix: iterating a TLV object stored its position in the
 object, so nested or concurrent iterations interfered

---
 ccnpy/core/HashValue.py     | 11 +----------
 ccnpy/core/Link.py          | 13 +------------
 ccnpy/core/Timestamp.py     | 11 +----------
 ccnpy/core/Tlv.py           | 11 +----------
 ccnpy/flic/tlvs/Pointers.py | 11 +----------
 5 files changed, 5 insertions(+), 52 deletions(-)

diff --git a/ccnpy/core/HashValue.py b/ccnpy/core/HashValue.py
index 26de464..7840b0d 100755
--- a/ccnpy/core/HashValue.py
+++ b/ccnpy/core/HashValue.py
@@ -54,16 +54,7 @@ class HashValue(TlvType):
         self._wire_format = self._tlv.serialize()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __alg_string(self):
         if self._hash_algorithm == HashFunctionType.T_SHA_256:
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 223fd65..fe062e8 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -55,8 +55,6 @@ class Link:
         self._name = name
         self._keyid = keyid
         self._digest = digest
-        # for iteration
-        self._offset = 0
 
         self._wire_format = array.array("B", [])
         if self._name is not None:
@@ -80,16 +78,7 @@ class Link:
         return len(self._wire_format)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def name(self) -> Optional[Name]:
         return self._name
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 1a7e57c..34d5ad1 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -54,16 +54,7 @@ class Timestamp(TlvType, ABC):
         return len(self._tlv)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index fff8b2d..b3d344a 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -82,16 +82,7 @@ class Tlv(Serializable):
         return 4 + self.length()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __eq__(self, other):
         if not isinstance(other, Tlv):
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..d88d9c4 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -60,16 +60,7 @@ class Pointers(TlvType):
         return self._hash_values[item]
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self):
-            raise StopIteration
-
-        output = self[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._hash_values)
 
     @classmethod
     def parse(cls, tlv):
-- 
2.43.0


From 2ab79be7b110b5697ad910dc314a8ea900ff701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 12/54] fix: integers of more than 8 bytes were silently
 truncated when encoded

---
 ccnpy/core/Tlv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index b3d344a..ab87de6 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -197,7 +197,7 @@ class Tlv(Serializable):
             byte_array = [n >> 24, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
         else:
             # skip to 8 bytes
-            byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
+            byte_array = [n >> 56, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                           (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
 
         return array.array("B", byte_array)
@@ -210,7 +210,7 @@ class Tlv(Serializable):
         :param n:
         :return:
         """
-        byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
+        byte_array = [n >> 56, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                       (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
         return array.array("B", byte_array)
 
-- 
2.43.0


From 5aaf3e2b24f00a0624b1dd3a5578a38ac4c426e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 13/54] fix: TLV objects kept the caller's list, so later
 changes to it changed the object but not its encoding

---
 ccnpy/core/Name.py          | 2 +-
 ccnpy/flic/tlvs/Locators.py | 2 +-
 ccnpy/flic/tlvs/Node.py     | 2 +-
 ccnpy/flic/tlvs/NodeData.py | 4 ++--
 ccnpy/flic/tlvs/Pointers.py | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index f708137..b5ebda4 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -88,7 +88,7 @@ class Name(TlvType):
         :param components: An array of NameComponents
         """
         TlvType.__init__(self)
-        self._components = components
+        self._components = list(components) if components is not None else None
         self._tlv = Tlv(self.class_type(), self._components)
 
     def __len__(self):
diff --git a/ccnpy/flic/tlvs/Locators.py b/ccnpy/flic/tlvs/Locators.py
index 3316d38..a1d78b1 100755
--- a/ccnpy/flic/tlvs/Locators.py
+++ b/ccnpy/flic/tlvs/Locators.py
@@ -62,7 +62,7 @@ class Locators(TlvType):
         if len(locators) == 0:
             raise RuntimeError("Locators must have at least 1 link")
 
-        self._locators = locators
+        self._locators = list(locators)
         self._tlv = Tlv(self.class_type(), self._locators)
 
     def __len__(self):
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 800101d..538b3d6 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -85,7 +85,6 @@ class Node(TlvType):
         """
         TlvType.__init__(self)
         self._node_data = node_data
-        self._hash_groups = hash_groups
 
         if node_data is not None and not isinstance(node_data, NodeData):
             raise TypeError("node_data must be ccnpy.flic.NodeData")
@@ -96,6 +95,7 @@ class Node(TlvType):
         if not isinstance(hash_groups, list) or len(hash_groups) == 0:
             raise TypeError("hash_groups must be a list of one or more ccnpy.flic.HashGroup")
 
+        self._hash_groups = list(hash_groups)
         self._tlv = self._create_padded_tlv(pad_length)
 
     def _create_padded_tlv(self, pad_length: int):
diff --git a/ccnpy/flic/tlvs/NodeData.py b/ccnpy/flic/tlvs/NodeData.py
index c28e789..676ee48 100755
--- a/ccnpy/flic/tlvs/NodeData.py
+++ b/ccnpy/flic/tlvs/NodeData.py
@@ -70,8 +70,8 @@ class NodeData(TlvType):
         self._subtree_size = subtree_size
         self._subtree_digest = subtree_digest
         self._locators = locators
-        self._vendors = vendors
-        self._nc_defs = nc_defs if nc_defs is not None else []
+        self._vendors = list(vendors) if vendors is not None else None
+        self._nc_defs = list(nc_defs) if nc_defs is not None else []
 
         tlvs = []
         if self._subtree_size is not None:
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index d88d9c4..fa27f2d 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -44,7 +44,7 @@ class Pointers(TlvType):
         if hash_values is None or not isinstance(hash_values, list):
             raise TypeError("hash_values must be a non-empty list of ccnpy.HashValue")
 
-        self._hash_values = hash_values
+        self._hash_values = list(hash_values)
         self._tlv = Tlv(self.class_type(), self._hash_values)
 
     def __len__(self):
-- 
2.43.0


From c8c1adc0312593a555a9ab314d7b3c481bc7ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 14/54] fix: a KeyError raised while parsing a nested field was
 taken for an unknown field and the field dropped

---
 ccnpy/core/TlvType.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ccnpy/core/TlvType.py b/ccnpy/core/TlvType.py
index a567706..14655ae 100755
--- a/ccnpy/core/TlvType.py
+++ b/ccnpy/core/TlvType.py
@@ -99,17 +99,18 @@ class TlvType(Serializable):
             cls.logger.debug("offset %d parsing %s", offset, inner_tlv)
             offset += len(inner_tlv)
 
-            try:
-                name_class = parser_lookup[inner_tlv.type()]
-                arg_name = name_class[0]
-                clazz = name_class[1]
-                if values[arg_name] is not None:
-                    raise ParseError(f'{arg_name} already set parsing: {tlv_value}')
-                values[arg_name] = clazz.parse(inner_tlv)
-                cls.logger.debug('Set values[%s]=%s', arg_name, values[arg_name])
-            except KeyError:
+            name_class = parser_lookup.get(inner_tlv.type())
+            if name_class is None:
                 if not skip_unknown:
                     raise ParseError("Unsupported TLV type %r" % inner_tlv)
+                continue
+
+            arg_name = name_class[0]
+            clazz = name_class[1]
+            if values[arg_name] is not None:
+                raise ParseError(f'{arg_name} already set parsing: {tlv_value}')
+            values[arg_name] = clazz.parse(inner_tlv)
+            cls.logger.debug('Set values[%s]=%s', arg_name, values[arg_name])
 
         return values
 
-- 
2.43.0


From 14f481cdb9dc4b2d58545dd4d711a3faf4c0a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:21 +0000
Subject: [PATCH 15/54] fix: Manifest.deserialize silently replaced a repeated
 AuthTag

---
 ccnpy/flic/tlvs/Manifest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 2302a41..3ac903b 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -100,6 +100,7 @@ class Manifest:
                 assert node is None
                 node = EncryptedNode.parse(tlv)
             elif tlv.type() == AuthTag.class_type():
+                assert auth_tag is None
                 auth_tag = AuthTag.parse(tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
-- 
2.43.0


From 69c9f9f8c7197fd1a0e5b66fd568ad76afbc5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 16/54] fix: ProtocolFlagsSchema.parse silently replaced
 repeated flags

---
 ccnpy/flic/tlvs/NcSchema.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..587912d 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -77,10 +77,8 @@ class ProtocolFlagsSchema(NcSchema, ABC):
             inner_tlv = Tlv.deserialize(tlv.value()[offset:])
             offset += len(inner_tlv)
 
-            try:
-                flags = ProtocolFlags.parse(inner_tlv)
-            except CannotParseError:
-                raise
+            assert flags is None
+            flags = ProtocolFlags.parse(inner_tlv)
 
         return cls(flags=flags)
 
-- 
2.43.0


From 2df029a799a0de8e900e253bad3eaeba85c074e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 17/54] fix: ValidationAlg_RsaSha256 called a method RsaKey
 does not have when embedding a public key

---
 ccnpy/core/ValidationAlg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..f46cd87 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -128,7 +128,7 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         tlvs.append(KeyId(keyid))
 
         if public_key is not None:
-            tlvs.append(Tlv(self.__T_PUBLICKEY, public_key.der()))
+            tlvs.append(Tlv(self.__T_PUBLICKEY, public_key.public_key_der()))
 
         if key_link is not None:
             tlvs.append(Tlv(KeyLink.class_type(), key_link))
-- 
2.43.0


From b08b351772443cdadec08f46dc5c18101454c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:56 +0000
Subject: [PATCH 18/54] fix: ValidationAlg_RsaSha256.parse silently replaced
 repeated fields

---
 ccnpy/core/ValidationAlg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index f46cd87..867ed1a 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -184,9 +184,11 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         while offset < tlv.length():
             inner_tlv = Tlv.deserialize(tlv.value()[offset:])
             if inner_tlv.type() == KeyId.class_type():
+                assert keyid is None
                 keyid_tlv = KeyId.parse(inner_tlv)
                 keyid = keyid_tlv.digest()
             elif inner_tlv.type() == SignatureTime.class_type():
+                assert signature_time is None
                 signature_time = SignatureTime.parse(inner_tlv)
             elif inner_tlv.type() == cls.__T_PUBLICKEY:
                 der = inner_tlv.value()
-- 
2.43.0


From 7f4c9c80ad47efe302d8c0e52a3392c636f4d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 19/54] fix: ValidationAlg_RsaSha256 could not decode the key
 link it encodes

---
 ccnpy/core/ValidationAlg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 867ed1a..15a5360 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -18,6 +18,7 @@ from datetime import datetime, UTC
 from .HashValue import HashValue
 from .KeyId import KeyId
 from .KeyLink import KeyLink
+from .Link import Link
 from .SignatureTime import SignatureTime
 from .Tlv import Tlv
 from .TlvType import TlvType
@@ -195,8 +196,8 @@ class ValidationAlg_RsaSha256(ValidationAlg):
                 # TODO: convert from DER to Public Key
                 raise RuntimeError("Not implemented")
             elif inner_tlv.type() == KeyLink.class_type():
-                # TODO: process a LINK type
-                raise RuntimeError("Not implemented")
+                assert key_link is None
+                key_link = Link.deserialize(inner_tlv.value())
             offset += len(inner_tlv)
         return cls(keyid=keyid, public_key=public_key, key_link=key_link, signature_time=signature_time)
 
-- 
2.43.0


From ded7333159f1f445f2623c5a7867b2144ae53391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 20/54] fix: HpkeKdfIdentifiers.parse returned an exception
 instead of raising it

---
 ccnpy/crypto/HpkeKdfIdentifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/crypto/HpkeKdfIdentifiers.py b/ccnpy/crypto/HpkeKdfIdentifiers.py
index 319fe9c..e140502 100644
--- a/ccnpy/crypto/HpkeKdfIdentifiers.py
+++ b/ccnpy/crypto/HpkeKdfIdentifiers.py
@@ -35,4 +35,4 @@ class HpkeKdfIdentifiers(Enum):
         for x in HpkeKdfIdentifiers:
             if x.str_name == name.upper():
                 return x
-        return KeyError(f'Not found: {name}')
+        raise KeyError(f'Not found: {name}')
-- 
2.43.0


From 7c5e0bdda22d6b6dbc4aa247369cffc3ec2454ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 21/54] fix: PacketDirectoryReader raised NameError after
 dereferencing a link

---
 ccnpy/flic/tree/TreeIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..a2c3898 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,9 +268,9 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From 29fc7a56ad4ad7c76633846df0ba8f16120b9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 22/54] fix: PacketDirectoryReader.get returned a packet
 without checking that it has the requested hash

---
 ccnpy/flic/tree/TreeIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a2c3898..f376d4f 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -241,6 +241,8 @@ class TreeIO:
             # ccnx does not use forwarding hint
             path = self.to_path(hash_restriction)
             p = Packet.load(path)
+            if p.content_object_hash() != hash_restriction:
+                raise ValueError(f'The packet in {path} has hash {p.content_object_hash()}, not the requested {hash_restriction}')
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
-- 
2.43.0


From 16edb8e894294904b81aec0f6e8cc324485526f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 23/54] fix: a packet reached through a name link was not
 checked against the link's hash and the requested name

---
 ccnpy/flic/tree/TreeIO.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index f376d4f..7b5af3c 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,8 +268,9 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
-                hash_path = self.to_path(link.digest())
-                packet = Packet.load(hash_path)
+                if link.digest() is None:
+                    raise ValueError(f'The link {link_path} does not have a content object hash')
+                packet = self.get(name=name, hash_restriction=link.digest())
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From 693a16c2ff21f69e22200fd81d73a34a03217996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 24/54] fix: the root manifest of a segmented tree pointed at
 manifest id 0 even if the top manifest has another id

---
 ccnpy/flic/ManifestTree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..e86c0fe 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -102,9 +102,11 @@ class ManifestTree:
         """
         ptr = Pointers([top_manifest_packet.content_object_hash()])
 
-        # if the top manifest is SegmentedSchema, we need to include the fact that the chunk_id is 0
+        # if the top manifest is SegmentedSchema, we need to include the manifest id in its name, which is
+        # not 0 if the tree is not full
         if self._name_ctx.manifest_schema_impl.uses_name_id():
-            start_segment_id=StartSegmentId(0)
+            top_name = top_manifest_packet.body().name()
+            start_segment_id=StartSegmentId(top_name.component(top_name.count() - 1).value_as_number())
         else:
             start_segment_id=None
 
-- 
2.43.0


From 26207a025004dabd5232b943bdc237149a197000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 25/54] fix: ManifestFactory.build_packet ignored the signer it
 was given

---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From ee2494064aa5a9943c325dbda6088e258c27f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 26/54] fix: RsaOaepDecryptor.decrypt_node called the security
 context

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..3ba9161 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -55,5 +55,5 @@ class RsaOaepDecryptor(ManifestDecryptor):
         return impl.decrypt_manifest(manifest)
 
     def decrypt_node(self, security_ctx, encrypted_node, auth_tag):
-        impl = self._get_impl(security_ctx=security_ctx())
+        impl = self._get_impl(security_ctx=security_ctx)
         return impl.decrypt_node(security_ctx, encrypted_node, auth_tag)
-- 
2.43.0


From 8b15ac9f991870158c3762f435ec4bd88b0037bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 27/54] fix: SegmentedSchemaImpl.get_name did not accept the
 keyword that SchemaImpl.get_next_name passes

---
 ccnpy/flic/name_constructor/SegmentedSchemaImpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py b/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
index 5d50812..8dcc016 100644
--- a/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
+++ b/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
@@ -46,11 +46,11 @@ class SegmentedSchemaImpl(SchemaImpl):
     def __repr__(self):
         return f'SegmentedImpl(name={self._name}, nc_id={self._nc_id}, schema={self._schema})'
 
-    def get_name(self, suffix_id) -> Optional[Name]:
+    def get_name(self, chunk_id) -> Optional[Name]:
         """
         HashSchema always uses nameless objects
         """
-        return self._name.append(self._suffix_type.create_name_component(suffix_id))
+        return self._name.append(self._suffix_type.create_name_component(chunk_id))
 
     def nc_id(self) -> NcId:
         return self._nc_id
-- 
2.43.0


From 936d0293c7d1fd68f2a2c59133a8a780c147afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 28/54] fix: NameConstructorContext.create returned None for an
 unknown schema type

---
 ccnpy/flic/name_constructor/NameConstructorContext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/name_constructor/NameConstructorContext.py b/ccnpy/flic/name_constructor/NameConstructorContext.py
index 46a3405..97929fd 100644
--- a/ccnpy/flic/name_constructor/NameConstructorContext.py
+++ b/ccnpy/flic/name_constructor/NameConstructorContext.py
@@ -56,6 +56,8 @@ class NameConstructorContext:
         if tree_options.schema_type == SchemaType.PREFIX:
             return cls._create_prefix(tree_options)
 
+        raise ValueError(f"Unsupported SchemaType: {tree_options.schema_type}")
+
     @classmethod
     def _create_hashed(cls, tree_options: ManifestTreeOptions):
         """
-- 
2.43.0


From 4737d1e0f0505d2550b040973606f640c8e6762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 29/54] fix: ManifestIdFactory computed ids with floating
 point, which is inexact for large trees

---
 ccnpy/flic/tree/ManifestIdFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/ManifestIdFactory.py b/ccnpy/flic/tree/ManifestIdFactory.py
index 107c70f..626a0a3 100644
--- a/ccnpy/flic/tree/ManifestIdFactory.py
+++ b/ccnpy/flic/tree/ManifestIdFactory.py
@@ -36,7 +36,7 @@ class ManifestIdFactory:
         if self._tree_degree == 1:
             return h
         assert self._tree_degree > 1
-        return int((pow(self._tree_degree, (h+1))-1) / (self._tree_degree-1) - 1)
+        return (pow(self._tree_degree, (h+1))-1) // (self._tree_degree-1) - 1
 
     def get_next_id(self, height) -> int:
         next_id = self._next_ids[height]
-- 
2.43.0


From 49e771c7dd45f3607d60ac06bdde1f142f3bb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:11 +0000
Subject: [PATCH 30/54] fix: DecryptorCache returned the wrong decryptor after
 a failed creation or for another kind of security context

---
 ccnpy/flic/tree/DecryptorCache.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..2dcbd9f 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -36,19 +36,20 @@ class DecryptorCache:
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
-        # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
+        # RsaOaepDecryptor has its own cache, as it uses (keyid, keynum) pair as index
+        if isinstance(security_ctx, RsaOaepCtx):
+            return self._oaep_decryptor
+
         key_num = security_ctx.key_number()
-        if key_num == self._last_key_num:
+        if self._last_decryptor is not None and key_num == self._last_key_num:
             return self._last_decryptor
-        self._last_key_num = key_num
         self._last_decryptor = self._create(security_ctx)
+        self._last_key_num = key_num
         return self._last_decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-        # TODO: implement for RsaOaep too
         if isinstance(security_ctx, AeadCtx):
             key_num = security_ctx.key_number()
             return AeadDecryptor(self._keystore.get_aes_key(key_num))
 
-        if isinstance(security_ctx, RsaOaepCtx):
-            return self._oaep_decryptor
+        raise ValueError(f"Unsupported security context: {security_ctx}")
-- 
2.43.0


From 892696b8a69b99d6679a6aa6576ea3125268e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 31/54] fix: the configured KDF was announced in the security
 context but never applied to the key

---
 ccnpy/crypto/HpkeKdfIdentifiers.py   |  7 +++++++
 ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py |  3 ++-
 ccnpy/flic/aeadctx/AeadImpl.py       | 31 ++++++++++++++++++----------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/ccnpy/crypto/HpkeKdfIdentifiers.py b/ccnpy/crypto/HpkeKdfIdentifiers.py
index e140502..6aa5ee4 100644
--- a/ccnpy/crypto/HpkeKdfIdentifiers.py
+++ b/ccnpy/crypto/HpkeKdfIdentifiers.py
@@ -30,6 +30,13 @@ class HpkeKdfIdentifiers(Enum):
     def __repr__(self):
         return self.str_name
 
+    @classmethod
+    def from_number(cls, number: int):
+        for x in HpkeKdfIdentifiers:
+            if x.number == number:
+                return x
+        raise ValueError(f'Unsupported KDF number: {number}')
+
     @classmethod
     def parse(cls, name: str):
         for x in HpkeKdfIdentifiers:
diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
index 5a4b91e..ddc3f93 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
@@ -178,7 +178,8 @@ class RsaOaepImpl(AeadImpl):
             if not (mode.is_aes_ccm_128() or mode.is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
+        key = self._derive_key(security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
                                       ciphertext=encrypted_node.value(),
                                       associated_data=security_ctx.serialize(),
                                       auth_tag=auth_tag.value())
diff --git a/ccnpy/flic/aeadctx/AeadImpl.py b/ccnpy/flic/aeadctx/AeadImpl.py
index a359fa5..c2ff61c 100755
--- a/ccnpy/flic/aeadctx/AeadImpl.py
+++ b/ccnpy/flic/aeadctx/AeadImpl.py
@@ -14,6 +14,7 @@
 import logging
 import math
 from array import array
+from typing import Optional
 
 from .AeadData import AeadData
 from .AeadParameters import AeadParameters
@@ -21,11 +22,13 @@ from ..tlvs.AeadCtx import AeadCtx
 from ..tlvs.AeadMode import AeadMode
 from ..tlvs.AuthTag import AuthTag
 from ..tlvs.EncryptedNode import EncryptedNode
+from ..tlvs.KdfData import KdfData
 from ..tlvs.Manifest import Manifest
 from ..tlvs.Node import Node
 from ..tlvs.SecurityCtx import AeadSecurityCtx
 from ...crypto.AeadKey import AeadKey, AeadGcm, AeadCcm
 from ...crypto.DecryptionError import DecryptionError
+from ...crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
 from ...crypto.KDF import KDF
 
 
@@ -46,21 +49,25 @@ class AeadImpl:
         self._params = params
         self.logger.debug(self)
 
-    def  _derive_key(self, key: AeadKey) -> AeadKey:
-        if self._params.kdf_data is None:
+    def _derive_key(self, kdf_data: Optional[KdfData]) -> AeadKey:
+        """
+        The key to use with a security context that announces the given kdf_data.
+        """
+        key = self._params.key
+        if kdf_data is None:
             return key
-        assert self._params.kdf_data.kdf_info() is not None
 
         mode = AeadMode.from_key(key)
         fixed_info = (b'FLIC'
                       + self._params.key_number.serialize().tobytes()
-                      + mode.serialize().tobytes()
-                      + self._params.kdf_data.kdf_info().serialize().tobytes())
-        derived_bytes = KDF.derive(kdf_id=self._params.kdf_data.kdf_alg().value(),
+                      + mode.serialize().tobytes())
+        if kdf_data.kdf_info() is not None:
+            fixed_info += kdf_data.kdf_info().serialize().tobytes()
+        derived_bytes = KDF.derive(kdf_id=HpkeKdfIdentifiers.from_number(kdf_data.kdf_alg().value()),
                                      input_key=key.key(),
                                      length=math.ceil(len(key) / 8),
                                      info=fixed_info,
-                                     salt=self._params.kdf_salt
+                                     salt=self._params.kdf_salt_bytes
                                      )
         if isinstance(key, AeadGcm):
             return AeadGcm(derived_bytes)
@@ -141,9 +148,10 @@ class AeadImpl:
         iv = self._iv_from_nonce(security_ctx.nonce().value())
 
         plaintext = node.serialized_value()
-        ciphertext, a = self._params.key.encrypt(iv=iv,
-                                          plaintext=plaintext,
-                                          associated_data=security_ctx.serialize())
+        key = self._derive_key(security_ctx.aead_data().kdf_data())
+        ciphertext, a = key.encrypt(iv=iv,
+                                    plaintext=plaintext,
+                                    associated_data=security_ctx.serialize())
 
         encrypted_node = EncryptedNode(ciphertext)
         auth_tag = AuthTag(a)
@@ -194,7 +202,8 @@ class AeadImpl:
             if not (security_ctx.aead_data().mode().is_aes_ccm_128() or security_ctx.aead_data().mode().is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
+        key = self._derive_key(security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
                                       ciphertext=encrypted_node.value(),
                                       associated_data=security_ctx.serialize(),
                                       auth_tag=auth_tag.value())
-- 
2.43.0


From 3f999d2b0ff596557fbabea244dedafbdf319205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 32/54] fix: WrappedKey failed with an obscure error without
 KdfInfo or without salt

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..d21d79b 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -37,7 +37,7 @@ class WrappedKey(OctetTlvType):
     def _create_label(key_number: KeyNumber, mode: AeadMode,
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
-        if kdf_data is not None:
+        if kdf_data is not None and kdf_data.kdf_info() is not None:
             kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
         else:
             kdf_bytes = b''
@@ -61,8 +61,8 @@ class WrappedKey(OctetTlvType):
                      KeyLink (if present in RsaOaepWrapper)
         """
 
-        if params.aead_salt is not None and (params.aead_salt < 0 or params.aead_salt > 0xFFFFFFFF):
-            raise ValueError(f'If salt is specified, it must be unsigned 4-byte integer, got: {params.aead_salt}')
+        if params.aead_salt is None or params.aead_salt < 0 or params.aead_salt > 0xFFFFFFFF:
+            raise ValueError(f'Key wrapping needs a salt, it must be unsigned 4-byte integer, got: {params.aead_salt}')
 
         plaintext = Tlv.uint32_to_array(params.aead_salt)
         plaintext.extend(params.key.key())
-- 
2.43.0


From 2871be28963f60724483ec0a65a8e6ead477e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 33/54] fix: decrypt_manifest crashed with AttributeError when
 the keystore does not have the AES key

---
 ccnpy/apps/packet_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..b364b3f 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,7 +80,11 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
     except DecryptionError as e:
         print(f"Failed decryption: {e}")
+        return None
-- 
2.43.0


From f7c882ba8813ba68c9161da013059053b2ebe1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 34/54] fix: the default AES key number differed between runs,
 could be negative, and readers had none

---
 ccnpy/apps/cli_utils.py       | 8 +++++++-
 ccnpy/apps/manifest_writer.py | 4 ----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..fa21a6f 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -103,9 +104,14 @@ def kdf_data_from_cli(args) -> Optional[KdfData]:
 
 def aead_parameters_from_cli(args):
     key = aes_key_from_cli_args(args)
+    key_number = args.key_num
+    if key is not None and key_number is None:
+        # the left 8 bytes of the sha256 of the key, so the writer and the reader derive the same number
+        key_number = KeyNumber(hashlib.sha256(args.enc_key).digest()[:8])
+
     params = AeadParameters(
         key=key,
-        key_number=args.key_num,
+        key_number=key_number,
         aead_salt=args.salt,
         kdf_data=kdf_data_from_cli(args),
         kdf_salt=args.kdf_salt)
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..0150b0e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -149,10 +149,6 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
-
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
     else:
-- 
2.43.0


From 8bd9e9faa814deb38dd4f353885b2e688cd52afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:48 +0000
Subject: [PATCH 35/54] fix: an RSA key password given as a string, as the
 command line does, was refused with TypeError

---
 ccnpy/crypto/RsaKey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 73aa630..6984371 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -69,6 +69,8 @@ class RsaKey:
     def __initialize_private_key(self, pem_key, password):
         if password is not None and len(password) == 0:
             password = None
+        if isinstance(password, str):
+            password = password.encode('utf-8')
         self._private_key = serialization.load_pem_private_key(
                                 pem_key,
                                 password=password,
-- 
2.43.0


From e5045aebde9d19446fa329e98b0c9f81fe09dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:00 +0000
Subject: [PATCH 36/54] fix: decrypting with a public RSA key failed with
 AttributeError instead of the error that sign gives

---
 ccnpy/crypto/RsaKey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 6984371..9a2b564 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -240,6 +240,9 @@ class RsaKey:
         :param cyphertext: Bytes or an array
         :returns: An array
         """
+        if self._private_key is None:
+            raise ValueError("RsaKey does not have a private key")
+
         if isinstance(cyphertext, array.array):
             cyphertext = cyphertext.tobytes()
 
-- 
2.43.0


From 362aa12552d056379e0c3ada669ef5d6e0eb55a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 37/54] fix: manifest packets with a name, an expiry time or
 group sizes could exceed max_packet_size

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 32 ++++++++++++++++++-----
 ccnpy/flic/tree/TreeBuilder.py            |  2 ++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 9213860..e8bb906 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -67,6 +67,12 @@ class ManifestSizeCalculator:
         # Now validate that it works
         packet = self._build_manifest_packet(num_hashes, hv)
         length = len(packet)
+        while length > self._max_packet_size and num_hashes > 1:
+            # with more pointers, the sizes may need bigger integers
+            num_hashes -= 1
+            packet = self._build_manifest_packet(num_hashes, hv)
+            length = len(packet)
+
         if length > self._max_packet_size:
             raise ValueError(
                 "A filled manifest packet is %r bytes with %r hashes, a hash is %r bytes, and exceeds max_size %r" %
@@ -84,9 +90,17 @@ class ManifestSizeCalculator:
         # Arbitrary choise, we put n-1 into direct and 1 into indirect
         hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct = num_hashes -1, max_indirect=1)
 
-        for hv in (num_hashes -1) * [hv]:
-            hgb.prepend_direct(hv)
-        hgb.prepend_indirect(hv)
+        # If we use leaf_size or subtree_size, then use total bytes, as no group can have more.
+        tree_options = self._manifest_factory.tree_options()
+        if tree_options.add_group_leaf_size or tree_options.add_group_subtree_size:
+            group_size = self._total_bytes
+        else:
+            group_size = 0
+
+        for i in range(num_hashes - 1):
+            hgb.prepend_direct(hv, leaf_size=group_size if i == 0 else 0)
+        hgb.prepend_indirect(hv, subtree_size=group_size)
+
         if self._name_ctx.manifest_schema_impl.uses_name_id():
             indirect_start_segment_id = StartSegmentId(self.__MAX_MANIFEST_ID)
         else:
@@ -97,14 +111,18 @@ class ManifestSizeCalculator:
         else:
             direct_start_segment_id = None
 
-        # include_leaf_size and include_subtree_size might reserve too much space if we do not use those.
-        hash_groups = hgb.hash_groups(include_leaf_size=True,
-                                      include_subtree_size=True,
+        # For nameless manifests, include_leaf_size and include_subtree_size might reserve too much space if we do
+        # not use those.
+        name = self._name_ctx.manifest_schema_impl.get_name(self.__MAX_MANIFEST_ID)
+        hash_groups = hgb.hash_groups(include_leaf_size=name is None or tree_options.add_group_leaf_size,
+                                      include_subtree_size=name is None or tree_options.add_group_subtree_size,
                                       indirect_start_segment_id=indirect_start_segment_id,
                                       direct_start_segment_id=direct_start_segment_id)
 
         packet = self._manifest_factory.build_packet(source=hash_groups,
-                                               node_subtree_size=self._total_bytes)
+                                               node_subtree_size=self._total_bytes,
+                                               name=name,
+                                               expiry_time=tree_options.manifest_expiry_time)
 
         return packet
 
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..921e604 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -327,6 +327,8 @@ class TreeBuilder:
         packet = self._factory.build_packet(source=node,
                                             name=self._get_next_manifest_name(level),
                                             expiry_time=self._tree_options.manifest_expiry_time)
+        if len(packet) > self._tree_options.max_packet_size:
+            raise ValueError(f'The manifest packet length {len(packet)} > max packet size {self._tree_options.max_packet_size}')
         return_value = TreeBuilderReturnValue(packet=packet, node=node)
         return return_value
 
-- 
2.43.0


From 7b3c5d2e9d00c273cd497a336f8904859af9583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:06 +0000
Subject: [PATCH 38/54] fix: Packet.deserialize ignored the packet length of
 the fixed header

---
 ccnpy/core/Packet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 068c91f..a6d666b 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -24,6 +24,7 @@ from .Name import Name
 from .Tlv import Tlv
 from .ValidationAlg import ValidationAlg
 from .ValidationPayload import ValidationPayload
+from ..exceptions.ParseError import ParseError
 from ..flic.tlvs.Locators import Locators
 
 
@@ -106,6 +107,11 @@ class Packet:
         header = FixedHeader.deserialize(buffer)
         offset += header.header_length()
 
+        if len(buffer) < header.packet_length():
+            raise ParseError(f'The packet length is {header.packet_length()}, but the buffer has only {len(buffer)} bytes')
+        # anything after the packet length does not belong to this packet
+        buffer = buffer[:header.packet_length()]
+
         while offset < len(buffer):
             tlv = Tlv.deserialize(buffer[offset:])
             offset += len(tlv)
-- 
2.43.0


From c92bb7dde55a08d1b037b3903bd5ace055aea426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:28 +0000
Subject: [PATCH 39/54] fix: manifest_reader passed --hash as a string where a
 HashValue is needed and failed

---
 ccnpy/apps/manifest_reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..df5ad0a 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -16,7 +16,9 @@ import argparse
 import logging
 import sys
 from abc import ABC, abstractmethod
+from typing import Optional
 
+from ccnpy.core.HashValue import HashValue
 from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
@@ -70,7 +72,7 @@ class ManifestDirectoryReader(ManifestReader):
         """
         super().__init__()
         self._root_name = Name.from_uri(args.name)
-        self._root_hash = args.hash_restriction
+        self._root_hash = self._parse_hash(args.hash_restriction)
         self._dir = args.in_dir
         self._keystore = keystore
         self._reader = TreeIO.PacketDirectoryReader(self._dir)
@@ -88,6 +90,15 @@ class ManifestDirectoryReader(ManifestReader):
             self._writer.close()
             self._writer = None
 
+    @staticmethod
+    def _parse_hash(value) -> Optional[HashValue]:
+        """
+        :param value: A hex string, e.g. '0xabcd' or 'abcd', or None
+        """
+        if value is None:
+            return None
+        return HashValue.create_sha256(bytes.fromhex(value.removeprefix('0x')))
+
     @staticmethod
     def _create_writer(args):
         if args.output_file_name is None:
@@ -120,7 +131,7 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", default=None, help='SHA256 content object hash of the root manifest (hex string)', required=False)
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From 6f0d7eeec0789dbccf2c22b0cd5139bb3a46802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:39 +0000
Subject: [PATCH 40/54] fix: Interest.serialize returned None, so no Interest
 packet could be built

---
 ccnpy/core/Interest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Interest.py b/ccnpy/core/Interest.py
index 9ee865a..82b5279 100755
--- a/ccnpy/core/Interest.py
+++ b/ccnpy/core/Interest.py
@@ -48,7 +48,7 @@ class Interest(TlvType):
         pass
 
     def serialize(self):
-        pass
+        return self._tlv.serialize()
 
     @staticmethod
     def is_content_object():
-- 
2.43.0


From 76c359924063a3554f3a988a6e7c275e253ececb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:05 +0000
Subject: [PATCH 41/54] fix: iterating a Node with many empty hash groups
 exceeded the recursion limit

---
 ccnpy/flic/tlvs/Node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 538b3d6..ac226c2 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -49,13 +49,14 @@ class Node(TlvType):
             self._ptr_index = 0
 
         def __next__(self):
+            # move to the next group with pointers
+            while self._group_index < len(self._groups) and \
+                    self._ptr_index >= len(self._groups[self._group_index].pointers()):
+                self._ptr_index = 0
+                self._group_index += 1
             if self._group_index >= len(self._groups):
                 raise StopIteration
             hg = self._groups[self._group_index]
-            if self._ptr_index >= len(hg.pointers()):
-                self._ptr_index = 0
-                self._group_index += 1
-                return self.__next__()
             value = hg.pointers()[self._ptr_index]
             if hg.group_data() is None or hg.group_data().nc_id() is None:
                 raise ValueError("Every hash group must have a group data and NcId")
-- 
2.43.0


From 2a1283949af3a83fbc697b03873c722c10e3c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 42/54] fix: compare Interests by their encoding

---
 ccnpy/core/Interest.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ccnpy/core/Interest.py b/ccnpy/core/Interest.py
index 82b5279..54fed9d 100755
--- a/ccnpy/core/Interest.py
+++ b/ccnpy/core/Interest.py
@@ -36,6 +36,11 @@ class Interest(TlvType):
         self._conobjhashrestr = con_obj_hash_restr
         self._tlv = Tlv(self.class_type(), [self._name, self._keyidrestr, self._conobjhashrestr])
 
+    def __eq__(self, other):
+        if not isinstance(other, Interest):
+            return False
+        return self._tlv == other._tlv
+
     def __len__(self):
         """
         The wire format length of the Interest
-- 
2.43.0


From 24e8daf5268b638fd17a64d92946839395de4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:55 +0000
Subject: [PATCH 43/54] fix: manifest_writer printed the key passwords and the
 content key with its arguments

---
 ccnpy/apps/cli_utils.py       | 11 +++++++++++
 ccnpy/apps/manifest_writer.py |  5 +++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index fa21a6f..82e7bed 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -160,6 +160,17 @@ def rsa_verifier_from_cli_args(args):
         return RsaSha256Verifier(public_key)
     return None
 
+def displayable_args(args):
+    """
+    :return: A copy of the command line arguments that is safe to display: keys and passwords are masked.
+    """
+    masked = dict(vars(args))
+    for secret in ['key_pass', 'wrap_pass', 'enc_key']:
+        if masked.get(secret) is not None:
+            masked[secret] = '***'
+    return argparse.Namespace(**masked)
+
+
 def fixup_key_password(args, ask_for_pass: bool = True):
     if args.key_pass is None:
         if ask_for_pass:
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index 0150b0e..b7b8fe0 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -25,7 +25,8 @@ from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
 from ccnpy.flic.name_constructor.SchemaType import SchemaType
 from ccnpy.flic.tlvs.Locators import Locators
 from ccnpy.flic.tree.TreeIO import TreeIO
-from .cli_utils import add_encryption_cli_args, rsa_signer_from_cli_args, fixup_key_password, encryptor_from_cli_args
+from .cli_utils import add_encryption_cli_args, rsa_signer_from_cli_args, fixup_key_password, encryptor_from_cli_args, \
+    displayable_args
 
 
 class ManifestWriter:
@@ -145,7 +146,7 @@ def run():
     parser.add_argument('filename', help='The filename to split into the manifest')
 
     args = parser.parse_args()
-    print(args)
+    print(displayable_args(args))
 
     fixup_key_password(args)
 
-- 
2.43.0


From fcaceaa279582b2ff7f44ae53a0320075e17c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:51 +0000
Subject: [PATCH 44/54] fix: group subtree sizes left out the data behind child
 manifests unless nodes carried their size too

---
 ccnpy/flic/tree/TreeBuildReturnValue.py |  2 ++
 ccnpy/flic/tree/TreeBuilder.py          | 12 +++---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/ccnpy/flic/tree/TreeBuildReturnValue.py b/ccnpy/flic/tree/TreeBuildReturnValue.py
index 69ded05..2279d65 100644
--- a/ccnpy/flic/tree/TreeBuildReturnValue.py
+++ b/ccnpy/flic/tree/TreeBuildReturnValue.py
@@ -29,4 +29,6 @@ class TreeBuilderReturnValue:
     node: Node
     manifest: Optional[Manifest] = None
     packet: Optional[Packet] = None
+    # The data bytes in the subtree, even if the node does not say
+    subtree_size: Optional[int] = None
 
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 921e604..0db9b4b 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -329,7 +329,7 @@ class TreeBuilder:
                                             expiry_time=self._tree_options.manifest_expiry_time)
         if len(packet) > self._tree_options.max_packet_size:
             raise ValueError(f'The manifest packet length {len(packet)} > max packet size {self._tree_options.max_packet_size}')
-        return_value = TreeBuilderReturnValue(packet=packet, node=node)
+        return_value = TreeBuilderReturnValue(packet=packet, node=node, subtree_size=direct_size + indirect_size)
         return return_value
 
     def _build_leaf_packet(self, head: int, tail: int, level: int):
@@ -413,7 +413,7 @@ class TreeBuilder:
     def _interior_add_right_most_child(self, builders: HashGroupBuilderPair, right_most_child: TreeBuilderReturnValue):
         if right_most_child is not None:
             builders.append_indirect(hash_value=right_most_child.packet.content_object_hash(),
-                                     subtree_size=self._get_optional_subtree_size(right_most_child.node.node_data()))
+                                     subtree_size=right_most_child.subtree_size)
 
     def _interior_add_indirect(self, builders: HashGroupBuilderPair, segment, level: int):
         # Reserve space at the head of the segment for this node's direct pointers before
@@ -424,7 +424,7 @@ class TreeBuilder:
         while not builders.is_indirect_full() and not segment.empty():
             child = self._bottom_up_preorder(segment, level - 1)
             builders.prepend_indirect(hash_value=child.packet.content_object_hash(),
-                                      subtree_size=self._get_optional_subtree_size(child.node.node_data()))
+                                      subtree_size=child.subtree_size)
 
         # Pull back our reservation and put those pointers in our direct children
         segment.decrement_head(reserve_count)
@@ -443,12 +443,6 @@ class TreeBuilder:
         # we did not execute the while loop
         return None
 
-    def _get_optional_subtree_size(self, node_data: NodeData):
-        if self._tree_options.add_node_subtree_size:
-            return node_data.subtree_size().size()
-        else:
-            return None
-
     def _add_manifest_to_graph(self, return_value: TreeBuilderReturnValue):
         if self._manifest_graph is not None:
             self._manifest_graph.add_manifest(return_value.packet.content_object_hash(),
-- 
2.43.0


From 37702e3ad5f83cbecda89e43b3ff6bd7a3586b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:36 +0000
Subject: [PATCH 45/54] fix: --aes-mode and --salt had no effect with
 --wrap-key unless --enc-key was given too

---
 ccnpy/apps/cli_utils.py                   |  4 +++-
 ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 82e7bed..7ae627a 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -136,7 +136,9 @@ def rsa_oaep_encryptor_from_cli_args(args):
 
     wrapping_key = RsaKey.load_pem_key(args.wrap_key, args.wrap_pass)
     if args.enc_key is None:
-        encryptor = RsaOaepEncryptor.create_with_new_content_key(wrapping_key=wrapping_key, kdf_data=kdf_data_from_cli(args))
+        encryptor = RsaOaepEncryptor.create_with_new_content_key(
+            wrapping_key=wrapping_key, kdf_data=kdf_data_from_cli(args),
+            key_class=AeadCcm if args.aes_mode == 'CCM' else AeadGcm, aead_salt=args.salt)
     else:
         encryptor = RsaOaepEncryptor(wrapping_key=wrapping_key, params=aead_parameters_from_cli(args))
     logger.debug(encryptor)
diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
index a92b824..126e0a3 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
@@ -13,7 +13,7 @@
 #  limitations under the License.
 import os
 import uuid
-from typing import Optional
+from typing import Optional, Type
 
 from .RsaOaepImpl import RsaOaepImpl
 from .RsaOaepWrapper import RsaOaepWrapper
@@ -35,14 +35,16 @@ class RsaOaepEncryptor(ManifestEncryptor):
     """
 
     @classmethod
-    def create_with_new_content_key(cls, wrapping_key: RsaKey, kdf_data: Optional[KdfData]):
+    def create_with_new_content_key(cls, wrapping_key: RsaKey, kdf_data: Optional[KdfData],
+                                    key_class: Type[AeadKey] = AeadGcm, aead_salt: Optional[int] = None):
         """
-        Creates with a random content encryption key and salt.
+        Creates with a random content encryption key and, unless given, salt.
 
         :param wrapping_key: The key encryption key
+        :param key_class: The kind of content encryption key to generate
         """
-        key = AeadGcm.generate(256)
-        salt = int.from_bytes(os.urandom(4))
+        key = key_class.generate(256)
+        salt = aead_salt if aead_salt is not None else int.from_bytes(os.urandom(4))
         key_number = KeyNumber(os.urandom(4))
 
         return cls(
-- 
2.43.0


From 6786591febc836ca15645c894290649a2225f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:46 +0000
Subject: [PATCH 46/54] fix: manifest_writer asked for a signing key password
 without a signing key

---
 ccnpy/apps/cli_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 7ae627a..7fc570f 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -174,7 +174,7 @@ def displayable_args(args):
 
 
 def fixup_key_password(args, ask_for_pass: bool = True):
-    if args.key_pass is None:
+    if args.key_file is not None and args.key_pass is None:
         if ask_for_pass:
             args.key_pass = getpass.getpass(prompt="Signing private key password")
             if len(args.key_pass) == 0:
-- 
2.43.0


From c24e78ea0b3912f2086fed22988053e3b4d93eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:55 +0000
Subject: [PATCH 47/54] fix: manifest_reader dropped bytes that are not UTF-8
 within one packet when writing to standard output

---
 ccnpy/apps/manifest_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index df5ad0a..64c1b18 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -52,9 +52,12 @@ class StdOutWrapper:
             self._out = None
 
     def write(self, value):
-        if not isinstance(value, str):
-            value = value.tobytes().decode('utf-8', errors='ignore')
-        self._out.write(value)
+        if isinstance(value, str):
+            self._out.write(value)
+        else:
+            # The data are bytes: decoding them would lose what is not text
+            self._out.flush()
+            self._out.buffer.write(value.tobytes())
 
 class ManifestNetworkReader(ManifestReader):
     pass
-- 
2.43.0


From 66a151d20078771b0042eb767ba7c32b4852bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 48/54] fix: manifest_reader ignored --verbose

---
 ccnpy/apps/manifest_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 64c1b18..562cd26 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -146,6 +146,9 @@ def run():
     parser.add_argument('-v', '--verbose', dest="verbose", action='store_true')
 
     args = parser.parse_args()
+    if args.verbose:
+        logging.getLogger().setLevel(logging.DEBUG)
+
     if args.name is None and args.hash_restriction is None:
         print("You must specify at least one of --name or --hash")
         exit(-1)
-- 
2.43.0


From c41abd4f147fc1d0071fec6840d4d8847080cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:37 +0000
Subject: [PATCH 49/54] fix: schemas with protocol flags can be constructed

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 587912d..34d871c 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -55,7 +55,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From 5e7f5a7fd2e8a685a08fc5a4c6fb92b7908a2548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:40 +0000
Subject: [PATCH 50/54] fix: printing a name died when a segment is not UTF-8
 text

---
 ccnpy/core/Name.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index b5ebda4..9eb0025 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -58,7 +58,8 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            # a name segment may have any octets, not just UTF-8 text
+            return f'Name={bytes(self.value()).decode('UTF-8', errors='backslashreplace')}'
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
-- 
2.43.0


From eb5a5b449ff5c53eed135967b7bb62af3f274572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:51 +0000
Subject: [PATCH 51/54] fix: names that differ in ?, #, ~ or / within a segment
 shared one link file, so the first packet was lost

---
 ccnpy/core/Name.py        | 19 +++++++++++++++++--
 ccnpy/flic/tree/TreeIO.py |  3 ++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 9eb0025..d4b8cd6 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -14,7 +14,7 @@
 from array import array
 from pathlib import PurePath
 from typing import List, Optional
-from urllib.parse import urlparse
+from urllib.parse import quote, urlparse
 
 from .Tlv import Tlv
 from .TlvType import TlvType
@@ -66,6 +66,21 @@ class NameComponent(Tlv):
             return f'IPID={self.value()}'
         return super().__repr__()
 
+    def as_uri(self) -> str:
+        """
+        The component as a URI path segment.  Octets other than unreserved characters are percent-encoded.
+        """
+        t = self.type()
+        if t == NameComponent.__T_CHUNKID or t == NameComponent.__T_MANIFESTID:
+            return repr(self)
+        if t == NameComponent.__T_NAMESEGMENT:
+            label = 'Name'
+        elif t == NameComponent.__T_IPID:
+            label = 'IPID'
+        else:
+            label = t
+        return f'{label}={quote(bytes(self.value()), safe="")}'
+
     def is_name_segment(self):
         return self._tlv_type == self.__T_NAMESEGMENT
 
@@ -123,7 +138,7 @@ class Name(TlvType):
 
     def as_uri(self):
         # return 'ccnx:/' + '/'.join([f'{c.type()}={repr(c.value())}' for c in self._components])
-        return 'ccnx:/' + '/'.join([repr(c) for c in self._components])
+        return 'ccnx:/' + '/'.join([c.as_uri() for c in self._components])
 
     def append(self, component: NameComponent):
         """
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 7b5af3c..48e3441 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -41,7 +41,8 @@ class TreeIO:
     def get_link_name(name: Name) -> str:
         url = urlparse(name.as_uri())
         filename = url.path
-        safename=filename.replace('/','~')
+        # a '~' of the name must not look like a '/'
+        safename=filename.replace('~','%7E').replace('/','~')
         return f'{safename}.link'
         # name_bytes = name.serialize().tobytes()
         # return f'{name_bytes.hex()}.link'
-- 
2.43.0


From ffad50cfc65b98ffbe072283078ae56b753858ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:32 +0000
Subject: [PATCH 52/54] fix: a directory reader finds packets a nested writer
 put

---
 ccnpy/flic/tree/TreeIO.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 48e3441..a22e4f1 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -142,8 +142,6 @@ class TreeIO:
             if nested:
                 subdir1 = filename[0:2]
                 subdir2 = filename[2:4]
-                dir_path = Path(self._directory, subdir1, subdir2)
-                dir_path.mkdir(parents=True, exist_ok=True)
                 return PurePath(self._directory, subdir1, subdir2, filename)
 
             return PurePath(self._directory, filename)
@@ -179,7 +177,9 @@ class TreeIO:
 
         def put(self, packet: Packet):
             self.total_bytes_by_packet += len(packet)
-            packet.save(self.to_path(input=packet, nested=self._nested))
+            path = self.to_path(input=packet, nested=self._nested)
+            Path(path).parent.mkdir(parents=True, exist_ok=True)
+            packet.save(path)
             self._write_link(packet)
             if packet.content_object_hash() not in self.by_hash:
                 self.total_bytes_by_hash += len(packet)
@@ -241,6 +241,9 @@ class TreeIO:
 
             # ccnx does not use forwarding hint
             path = self.to_path(hash_restriction)
+            if not Path(path).exists():
+                # the writer may have nested it
+                path = self.to_path(hash_restriction, nested=True)
             p = Packet.load(path)
             if p.content_object_hash() != hash_restriction:
                 raise ValueError(f'The packet in {path} has hash {p.content_object_hash()}, not the requested {hash_restriction}')
-- 
2.43.0


From 1eb7128f9b2f69326b6c6fc9aa404bccb135e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:32 +0000
Subject: [PATCH 53/54] fix: a hash group without pointers has none to iterate
 over

---
 ccnpy/flic/tlvs/Node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index ac226c2..a630eb1 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -51,7 +51,8 @@ class Node(TlvType):
         def __next__(self):
             # move to the next group with pointers
             while self._group_index < len(self._groups) and \
-                    self._ptr_index >= len(self._groups[self._group_index].pointers()):
+                    (self._groups[self._group_index].pointers() is None or
+                     self._ptr_index >= len(self._groups[self._group_index].pointers())):
                 self._ptr_index = 0
                 self._group_index += 1
             if self._group_index >= len(self._groups):
-- 
2.43.0


From 5efe232c6472239451bc090f47ee00dd6dfd5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:32 +0000
Subject: [PATCH 54/54] fix: objects without a payload or payload type are
 shown and refused cleanly

---
 ccnpy/core/ContentObject.py  | 4 +++-
 ccnpy/flic/tlvs/Manifest.py  | 4 +++-
 ccnpy/flic/tree/Traversal.py | 5 ++++-
 ccnpy/flic/tree/TreeIO.py    | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index ac03b4a..b2c189b 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -146,7 +146,9 @@ class ContentObject(TlvType):
                                             self._final_chunk_id])
 
     def __repr__(self):
-        if self.is_manifest():
+        if self._payload is None:
+            payload = None
+        elif self.is_manifest():
             from ccnpy.flic.tlvs.Manifest import Manifest
             try:
                 payload = Manifest.deserialize(self._payload.value())
diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 3ac903b..b059651 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -38,8 +38,10 @@ class Manifest:
     def from_content_object(cls, content_object: ContentObject):
         if not isinstance(content_object, ContentObject):
             raise TypeError("content_object must be ContentObject")
-        if not content_object.payload_type().is_manifest():
+        if not content_object.is_manifest():
             raise ValueError("Payload is not of type Manifest")
+        if content_object.payload() is None:
+            raise ValueError("Content object has no payload")
 
         try:
             return cls.deserialize(content_object.payload().value())
diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index ba8842c..374499d 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -112,6 +112,9 @@ class Traversal:
         if not isinstance(body, ContentObject):
             raise TypeError("body of the packet must be ccnpy.ContentObject")
 
+        if body.payload_type() is None:
+            raise ValueError("Missing payload type: %r" % body)
+
         if body.payload_type().is_manifest():
             manifest = self._manifest_from_content_object(body)
             if self._build_graph:
@@ -138,7 +141,7 @@ class Traversal:
             raise ValueError("Unsupported payload type: %r" % body)
 
     def _write_data(self, payload):
-        if self._data_writer is not None:
+        if self._data_writer is not None and payload is not None:
             self.logger.debug('Traversal save %d bytes', len(payload.value()))
             self._data_writer.write(payload.value())
 
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a22e4f1..c77ab6e 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -270,7 +270,7 @@ class TreeIO:
             link_path = self.to_path(name)
             p = Packet.load(link_path)
             # TODO: we should validate p, but that needs a keystore
-            if p.body().is_link():
+            if p.body().is_link() and p.body().payload() is not None:
                 link = Link.deserialize(p.body().payload().value())
                 if link.digest() is None:
                     raise ValueError(f'The link {link_path} does not have a content object hash')
-- 
2.43.0

