From 0ee07e8cabf3880cba7bd9461e920680f256f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 01/27] fix: encodeSize raises ValueError when the size does
 not fit the explicit length

---
 ebmlite/encoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index f7b9e53..d561912 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -87,9 +87,13 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         length = 1 if (length is None or length == -1) else length
         return b'\xff' * length
 
-    length = getLength(val) if (length is None or length == -1) else length
+    explicit = not (length is None or length == -1)
+    length = length if explicit else getLength(val)
     try:
         prefix = LENGTH_PREFIXES[length]
+        if explicit and val > prefix - 2:
+            # Value would collide with the length marker (or 'unknown' size)
+            raise ValueError("size %s too large for %s bytes" % (val, length))
         return encodeUInt(val | prefix, length)
     except (IndexError, TypeError, ValueError):
         raise ValueError("Cannot encode element size %s" % length)
-- 
2.43.0


From f95263bf0288f0d5a7ec0a82df1bcda9d42b88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 02/27] fix: ThreadAwareFile.cleanup no longer resizes the dict
 it iterates over

---
 ebmlite/threaded_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 20609b0..880c4cd 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -137,7 +137,7 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in self.threads.keys():
+            for i in list(self.threads):
                 if self.threads[i].closed:
                     del self.threads[i]
         finally:
-- 
2.43.0


From 6492f76bf4cab877b54fdc58f22e416b362a1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 03/27] fix: ThreadAwareFile rejects write modes passed by
 keyword and exclusive creation

---
 ebmlite/threaded_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 880c4cd..1b616da 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -45,9 +45,9 @@ class ThreadAwareFile(io.FileIO):
             one of the "read" modes (``r``, ``rb``, ``rU``, etc.).
         """
         # Ensure the file mode, if specified, is "read."
-        mode = args[1] if len(args) > 1 else 'r'
+        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
         if isinstance(mode, str):
-            if 'a' in mode or 'w' in mode or '+' in mode:
+            if any(c in mode for c in 'awx+'):
                 raise IOError("%s is read-only" % self.__class__.__name__)
 
         # Undocumented keyword argument `_new` is used by `makeThreadAware()`
-- 
2.43.0


From cb7246308d8410edfc5b9a97899e2910bea94b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 04/27] fix: xmlElement2ebml does not modify the UnknownElement
 class

---
 ebmlite/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8dd6b97..77d4ea5 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -249,9 +249,11 @@ def xmlElement2ebml(xmlEl,
         if eid is None:
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
-        cls = core.UnknownElement
         encId = encoding.encodeId(int(eid, 16))
-        cls.id = int(eid, 16)
+        # Use a one-off subclass; setting the ID of `UnknownElement` itself
+        # would break all parsing of unknown elements.
+        cls = type('UnknownElement', (core.UnknownElement,),
+                   {'id': int(eid, 16), '__slots__': ()})
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From 5f18dbbfddc1e288a1ec0dc7d500c684e38781db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 05/27] fix: nested XML elements may have a sizeLength and
 respect the 'unknown' option

---
 ebmlite/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 77d4ea5..ce4258c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -268,7 +268,7 @@ def xmlElement2ebml(xmlEl,
         else:
             sl = int(sl)
     else:
-        sl = xmlEl.get('sizeLength', sizeLength)
+        sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
@@ -276,7 +276,7 @@ def xmlElement2ebml(xmlEl,
         ebmlFile.write(encoding.encodeSize(None, sl))
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl)
+            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown=unknown)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From c88ca01ba168830e30c26a7de4b9b163f6eb433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 06/27] fix: import dates, infinities and NaN from XML

---
 ebmlite/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index ce4258c..5513383 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -18,6 +18,7 @@ __all__ = ['createID', 'validateID', 'toXml', 'xml2ebml', 'loadXml', 'pprint',
            'printSchemata', 'flatiter']
 
 import ast
+from datetime import datetime
 from io import BytesIO
 import pathlib
 import struct
@@ -285,7 +286,11 @@ def xmlElement2ebml(xmlEl,
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
-    elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
+    elif issubclass(cls, core.DateElement):
+        val = datetime.fromisoformat(xmlEl.get('value'))
+    elif issubclass(cls, core.FloatElement):
+        val = float(xmlEl.get('value'))
+    elif issubclass(cls, core.IntegerElement):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
         val = cls.dtype(xmlEl.get('value'))
-- 
2.43.0


From 72b7ec41476fdc9b3172fab4666342d7bbfe5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 07/27] fix: non-ASCII text is no longer escaped twice in
 exported XML

---
 ebmlite/tools/utils.py | 3 ++-
 ebmlite/util.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 7169429..118cec4 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,5 +33,6 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
-    with open(output, ('wb' if binary_output else 'w')) as out:
+    with open(output, ('wb' if binary_output else 'w'),
+              encoding=(None if binary_output else 'utf-8')) as out:
         yield schema, out
diff --git a/ebmlite/util.py b/ebmlite/util.py
index 5513383..e1ef98c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -202,7 +202,8 @@ def toXml(el: core.Element,
         xmlEl.set('encoding', binary_codec.NAME)
         xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
     elif not isinstance(el, core.VoidElement):
-        xmlEl.set('value', str(el.value).encode('ascii', 'xmlcharrefreplace').decode())
+        # Note: ElementTree escapes non-ASCII characters when needed
+        xmlEl.set('value', str(el.value))
 
     return xmlEl
 
-- 
2.43.0


From 83cf626cc950e924ac8677fa916cf59799fb3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 08/27] fix: import zero-length integer elements from XML

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index e1ef98c..6b2fa2c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -299,6 +299,9 @@ def xmlElement2ebml(xmlEl,
     size = xmlEl.get('size', None)
     if size is not None:
         size = int(size)
+        if size == 0 and issubclass(cls, core.IntegerElement):
+            # Empty integer (i.e., 0); integers are written as 1 or more bytes
+            size = None
     sl = xmlEl.get('sizeLength')
     if sl is not None:
         sl = int(sl)
-- 
2.43.0


From 9f9fb84794e2deb62a8f87fdef0b231b05fb7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 09/27] fix: Base64Codec accepts cols=0, as documented

---
 ebmlite/xml_codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 62407ca..95712f6 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -130,7 +130,7 @@ class Base64Codec(BinaryCodec):
 
         result = result.replace('\n', '')
 
-        if self.cols is None:
+        if not self.cols:
             if stream is not None:
                 return out.write(result)
             return result
-- 
2.43.0


From 62574e8cc6d1778ccaca989febdffc4f66589c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 10/27] fix: elements never declare a size other than that of
 their payload

---
 ebmlite/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index aa9fea2..8842b61 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -262,7 +262,11 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = None if infinite else (length or len(payload))
+        if length is not None and len(payload) != length:
+            raise ValueError("Length of %s payload (%d) does not match the "
+                             "specified length (%d)" %
+                             (cls.name, len(payload), length))
+        length = None if infinite else len(payload)
         encId = encoding.encodeId(cls.id)
         return encId + encoding.encodeSize(length, lengthSize) + payload
 
-- 
2.43.0


From 81d7ea6e235a33f11c74a17095e7577fbeacba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 11/27] fix: MasterElement.gc() counts its own cached value

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 8842b61..2823e99 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -692,8 +692,9 @@ class MasterElement(Element):
         """
         cleared = 0
         if self._value is not None:
+            cleared = 1
             if recurse:
-                cleared = sum(ch.gc(recurse) for ch in self._value) + 1
+                cleared += sum(ch.gc(recurse) for ch in self._value)
             self._value = None
         return cleared
 
-- 
2.43.0


From d4e7c28e053a98953a6840f92361f6a2cec8c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 12/27] fix: createID includes the maximum ID and respects
 counts below 1

---
 ebmlite/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 6b2fa2c..cd63c20 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -74,8 +74,8 @@ def createID(schema: core.Schema,
     exclude = set(exclude).union(schema.elements.keys())
 
     result = []
-    for i in (x for x in range(*idrange) if x not in exclude):
-        if len(result) == count:
+    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
+        if len(result) >= count:
             break
         result.append(i)
 
-- 
2.43.0


From 0342886ed333b7945791eca8dd2981f0e03e6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 13/27] fix: global elements are valid children of master
 elements without children

---
 ebmlite/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 2823e99..620365d 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -589,10 +589,10 @@ class MasterElement(Element):
             explicitly specified as a child element or a 'global' in the
             schema?
         """
-        if not cls.children:
-            return False
+        if cls.children and elId in cls.children:
+            return True
 
-        return elId in cls.children or elId in cls.schema.globals
+        return elId in cls.schema.globals
 
 
     @property
-- 
2.43.0


From 0769c389f5344f971c0586a2b5ddfb8a24aa142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 14/27] fix: master elements and documents accept lists of
 name/value tuples

---
 ebmlite/core.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 620365d..8371e1a 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -227,6 +227,13 @@ class Element(object):
         """ Type-specific payload encoder. """
         return encoding.encodeBinary(data, length)
 
+    @classmethod
+    def _isMultiple(cls, value: Any) -> bool:
+        """ Is the value being encoded a list of values, each of which is to
+            be encoded as its own element?
+        """
+        return isinstance(value, (list, tuple))
+
 
     @classmethod
     def encode(cls,
@@ -253,7 +260,7 @@ class Element(object):
         if infinite and not issubclass(cls, MasterElement):
             raise ValueError("Only Master elements can have 'infinite' lengths")
         length = cls.length if length is None else length
-        if isinstance(value, (list, tuple)):
+        if cls._isMultiple(value):
             if not cls.multiple:
                 raise ValueError("Multiple %s elements per parent not permitted"
                                  % cls.name)
@@ -702,6 +709,17 @@ class MasterElement(Element):
     # Encoding
     # ==========================================================================
 
+    @classmethod
+    def _isMultiple(cls, value: Any) -> bool:
+        """ Is the value being encoded a list of values, each of which is to
+            be encoded as its own element? A list of name/value tuples is not;
+            it is the contents of a single 'master' element.
+        """
+        return (super(MasterElement, cls)._isMultiple(value)
+                and not (value and all(isinstance(v, tuple) and len(v) == 2
+                                       and isinstance(v[0], (str, int))
+                                       for v in value)))
+
     @classmethod
     def encodePayload(cls,
                       data: Union[Dict[str, Any], List[Tuple[str, Any]], None],
@@ -747,16 +765,6 @@ class MasterElement(Element):
             :return: A bytearray containing the encoded EBML binary.
         """
         # TODO: Use 'length' to automatically generate `Void` element?
-        if isinstance(data, list) and len(data) > 0 and isinstance(data[0], list):
-            # List of lists: special case for 'master' elements.
-            # Encode as multiple 'master' elements.
-            result = bytearray()
-            for v in data:
-                result.extend(cls.encode(v, length=length,
-                                         lengthSize=lengthSize,
-                                         infinite=infinite))
-            return result
-
         # TODO: Remove 'infinite' kwarg from `Element.encode()` and handle it
         # here, since it only applied to Master elements.
         return super(MasterElement, cls).encode(data, length=length,
@@ -1020,6 +1028,8 @@ class Document(MasterElement):
                 raise TypeError('Cannot encode multiple Documents')
             else:
                 for v in data:
+                    # Items may be dictionaries or name/value tuples
+                    v = [v] if isinstance(v, tuple) else v
                     stream.write(cls.encodePayload(v))
         else:
             stream.write(cls.encodePayload(data))
-- 
2.43.0


From 651fb9b910f4541248d7baaa3baac06d1054a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 15/27] fix: redefining an element with another ID is an error,
 with or without attributes

---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 8371e1a..4dd425b 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1263,6 +1263,9 @@ class Schema(object):
             # Additional definitions only need to specify the element ID
             # and/or element name.
             oldEl = self[ename or eid]
+            if eid not in (None, oldEl.id) or ename not in (None, oldEl.name):
+                raise TypeError('Element %r (ID 0x%02X) redefined with '
+                                'different name or ID' % (oldEl.name, oldEl.id))
             ename = oldEl.name
             eid = oldEl.id
 
-- 
2.43.0


From c1bf714752d93e57c998922847e4876cf46d8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 16/27] fix: Schema.verify also checks the EBML header's
 contents

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 4dd425b..b272fff 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1488,7 +1488,7 @@ class Schema(object):
 
             return True
 
-        return _crawl(self.loads(data))
+        return _crawl(self.load(BytesIO(data), headers=True))
 
 
 # ==============================================================================
-- 
2.43.0


From f67cd7182be05501029ab5053cb93bb1cfaac269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 17/27] fix: encodeUnicode accepts bytes

---
 ebmlite/encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index d561912..0b32564 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -288,7 +288,8 @@ def encodeUnicode(val: str, length: Optional[int] = None) -> bytes:
     if not isinstance(val, (bytearray, bytes, str)):
         raise TypeError('Cannot encode {} {!r} as string'.format(type(val).__name__, val))
 
-    val = val.encode('utf_8')
+    if isinstance(val, str):
+        val = val.encode('utf_8')
 
     if length is not None:
         val = val[:length]
-- 
2.43.0


From 061f355f7145bb5b9183dd3eca956169e2112bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 18/27] fix: toXml works for documents of schemata that were
 not read from a file

---
 ebmlite/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index cd63c20..6bfb2ca 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -178,7 +178,8 @@ def toXml(el: core.Element,
     if isinstance(el, core.Document):
         xmlEl.set('source', el.filename)
         xmlEl.set('schemaName', el.schema.name)
-        xmlEl.set('schemaFile', el.schema.filename)
+        if el.schema.filename is not None:
+            xmlEl.set('schemaFile', el.schema.filename)
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From d206582b2cb28f7fff4e00b7350299332cdff081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 19/27] fix: xml2ebml does not add a second header when the XML
 root is the EBML header

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 6bfb2ca..f9f971d 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -365,7 +365,7 @@ def xml2ebml(xmlFile,
                         "schema %s (wrong schema)" % (xmlRoot.tag, schema.name))
 
     headers = headers and 'EBML' in schema
-    if headers and 'EBML' not in (el.tag for el in xmlRoot):
+    if headers and xmlRoot.tag != 'EBML' and 'EBML' not in (el.tag for el in xmlRoot):
         pos = ebmlFile.tell()
         cls = schema.document
         ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-- 
2.43.0


From c95a5300199ed167acf7e57f0c2d449ad6451764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 20/27] fix: entering a ThreadAwareFile's context returns the
 thread-aware file

---
 ebmlite/threaded_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 1b616da..470ca83 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -224,7 +224,8 @@ class ThreadAwareFile(io.FileIO):
                       self.__class__.__name__)
 
     def __enter__(self, *args, **kwargs):
-        return self.getThreadStream().__enter__()
+        self.getThreadStream().__enter__()
+        return self
 
     def __exit__(self, *args, **kwargs):
         return self.getThreadStream().__exit__(*args, **kwargs)
-- 
2.43.0


From 2ed8290c1511356676029c3e43cf245813aafa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 21/27] fix: a schema found by path stays the one its bare name
 loads

Loading a bare name that resolved to an already loaded file did not
remember the name, so the same name could load another schema later.
---
 ebmlite/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index b272fff..0380c79 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1616,7 +1616,9 @@ def loadSchema(filename: Union[str, Path],
         filename = filename.expanduser().absolute()
 
     if str(filename) in SCHEMATA and not reload:
-        return SCHEMATA[str(filename)]
+        # Remember the name, so it keeps referring to this schema
+        SCHEMATA[origName] = SCHEMATA[str(filename)]
+        return SCHEMATA[origName]
 
     if not filename.is_file():
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
-- 
2.43.0


From 8b5880dfdaebd82fe11ec22151d8fecf0a5733a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 22/27] fix: XML import reserves a longer size descriptor when
 a master has grown

The length of a master's size descriptor was guessed from the exported
size (and passed on to its descendants, enlarging them); if the encoded
children did not fit, the import failed with ValueError.
---
 ebmlite/util.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index f9f971d..7bc5a8c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -217,7 +217,8 @@ def xmlElement2ebml(xmlEl,
                     ebmlFile: BinaryIO,
                     schema: core.Schema,
                     sizeLength: Optional[int] = None,
-                    unknown: bool = True):
+                    unknown: bool = True,
+                    _fixed: bool = True):
     """ Convert an XML element to EBML, recursing if necessary. For converting
         an entire XML document, use `xml2ebml()`.
 
@@ -260,6 +261,8 @@ def xmlElement2ebml(xmlEl,
 
     codec = xmlEl.get('encoding', 'base64')
 
+    # Was the length asked for, or just derived from the XML's `size`?
+    fixed = 'sizeLength' in xmlEl.attrib or (_fixed and sizeLength is not None)
     if sizeLength is None:
         sl = xmlEl.get('sizeLength', None)
         if sl is None:
@@ -276,10 +279,18 @@ def xmlElement2ebml(xmlEl,
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
         sizePos = ebmlFile.tell()
-        ebmlFile.write(encoding.encodeSize(None, sl))
-        size = 0
-        for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown=unknown)
+        while True:
+            ebmlFile.write(encoding.encodeSize(None, sl))
+            size = 0
+            for chEl in xmlEl:
+                size += xmlElement2ebml(chEl, ebmlFile, schema, sl,
+                                        unknown=unknown, _fixed=fixed)
+            if fixed or encoding.getLength(size) <= sl:
+                break
+            # Encoded children are larger than in the source; the `size` in
+            # the XML suggested too short a length. Rewrite with a longer one.
+            sl = encoding.getLength(size)
+            ebmlFile.seek(sizePos)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From f29c592d739c80cfa53b7b06108b64874686449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 23/27] fix: a new thread does not get the stream of a finished
 one

Thread identifiers are reused after a thread exits; a later thread got the
earlier one's stream, at its position or closed.
---
 ebmlite/threaded_file.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 470ca83..7c5a5ad 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -98,7 +98,7 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread().ident] = fileStream
+        f.threads[currentThread()] = fileStream
         return f
 
 
@@ -107,13 +107,14 @@ class ThreadAwareFile(io.FileIO):
         """
         self._ready.wait(self.timeout)
 
-        ident = currentThread().ident
-        if ident not in self.threads:
+        # Note: not keyed by the thread's `ident`, which gets reused
+        thread = currentThread()
+        if thread not in self.threads:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
-            self.threads[ident] = fp
+            self.threads[thread] = fp
             return fp
-        return self.threads[ident]
+        return self.threads[thread]
 
 
     def closeAll(self):
@@ -149,9 +150,9 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread().ident
-        if ident in self.threads:
-            return self.threads[ident].closed
+        thread = currentThread()
+        if thread in self.threads:
+            return self.threads[thread].closed
         return True
 
 
-- 
2.43.0


From 553f46532b0c82bd9df12130643f894c5cfc6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 24/27] fix: threads closing a ThreadAwareFile at the same time
 do not disturb each other

---
 ebmlite/threaded_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 7c5a5ad..2dc29e1 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -138,9 +138,10 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in list(self.threads):
-                if self.threads[i].closed:
-                    del self.threads[i]
+            # Note: another thread may be removing closed streams as well
+            for i, fp in list(self.threads.items()):
+                if fp.closed:
+                    self.threads.pop(i, None)
         finally:
             self._ready.set()
 
-- 
2.43.0


From f28698266772e720433200e6a9c315ef1ca6bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 25/27] fix: raw data of an element of unknown size are read
 from the right place

---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 0380c79..390e236 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -195,14 +195,16 @@ class Element(object):
     def getRaw(self) -> bytes:
         """ Get the element's raw binary data, including EBML headers.
         """
+        size = self.size  # Note: may have to be read from the stream
         self.stream.seek(self.offset)
-        return self.stream.read(self.size + (self.payloadOffset - self.offset))
+        return self.stream.read(size + (self.payloadOffset - self.offset))
 
     def getRawValue(self) -> bytes:
         """ Get the raw binary of the element's value.
         """
+        size = self.size  # Note: may have to be read from the stream
         self.stream.seek(self.payloadOffset)
-        return self.stream.read(self.size)
+        return self.stream.read(size)
 
     # ==========================================================================
     # Caching (experimental)
-- 
2.43.0


From 38d819745f5e7253c5097ac562cb0c229831ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:02 +0000
Subject: [PATCH 26/27] fix: listSchemata skips XML files with unknown or
 unsupported encodings

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 390e236..aa48378 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1563,7 +1563,7 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     if xml.getroot().tag == 'Schema':
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
-                except (ET.ParseError, IOError, TypeError):
+                except (ET.ParseError, IOError, LookupError, TypeError, ValueError):
                     continue
 
     return schemata
-- 
2.43.0


From 957f61907eef345c4c8c2ca179cdde5c687d7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:02 +0000
Subject: [PATCH 27/27] fix: printSchemata no longer extends the caller's list
 of paths

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 7bc5a8c..753addc 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -517,7 +517,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
 
     try:
         if paths:
-            paths.extend(core.SCHEMA_PATH)
+            paths = [*paths, *core.SCHEMA_PATH]
         else:
             paths = core.SCHEMA_PATH
         schemata = core.listSchemata(*paths, absolute=absolute)
-- 
2.43.0

