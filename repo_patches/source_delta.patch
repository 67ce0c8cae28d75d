From d4996036db2816f2ed525eb93fd55052fd416f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 01/71] fix: allow non-ASCII unicode class aliases

ClassAlias decoded any alias with a decode method, which in Python 2
includes unicode, so that registering a class under a non-ASCII unicode
name raised UnicodeDecodeError.
---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 1ef3af3..a1eec02 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -37,7 +37,7 @@ class ClassAlias(object):
         self.klass = klass
         self.alias = alias
 
-        if hasattr(self.alias, 'decode'):
+        if isinstance(self.alias, bytes):
             self.alias = self.alias.decode('utf-8')
 
         self.static_attrs = kwargs.pop('static_attrs', None)
-- 
2.43.0


From 9375b4b29621c0505a2b67f0b216018805bc4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 02/71] fix: count dates and XML in the AMF0 encoder's
 reference table

The decoder gives every date and XML document a reference number, the
encoder did not, so that every reference written after a date or an XML
document resolved to the wrong object when decoded.
---
 pyamf/amf0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d1019b9..2933fb4 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -641,6 +641,8 @@ class Encoder(codec.Encoder):
 
         # According to the Red5 implementation of AMF0, dates references are
         # created, but not used.
+        self.context.addObject(d)
+
         if self.timezone_offset is not None:
             d -= self.timezone_offset
 
@@ -655,6 +657,9 @@ class Encoder(codec.Encoder):
         """
         Writes an XML instance.
         """
+        # like dates, a reference is created but not used
+        self.context.addObject(e)
+
         self.writeType(TYPE_XML)
 
         data = xml.tostring(e)
-- 
2.43.0


From ba0e5ceb125d8c6756181a5ec43e6613186fb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 03/71] fix: do not reference AMF3 objects in the AMF0
 reference table

An object whose class is encoded in AMF3 was added to the AMF0 encoder's
reference table before switching to AMF3. The decoder has no such entry:
a second occurrence, and all later references, could not be resolved.
---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 2933fb4..b427ce2 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -595,16 +595,18 @@ class Encoder(codec.Encoder):
         if self.writeReference(o) != -1:
             return
 
-        self.context.addObject(o)
         alias = self.context.getClassAlias(o.__class__)
 
         alias.compile()
 
         if alias.amf3:
+            # references to this object are kept by the AMF3 encoder
             self.writeAMF3(o)
 
             return
 
+        self.context.addObject(o)
+
         if alias.anonymous:
             self.writeType(TYPE_OBJECT)
         else:
-- 
2.43.0


From 9650d009286c0e7175600df7eb72ffe70b2a7f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 04/71] fix: refuse AMF0 keys and class names over 65535 bytes

They were written with a four byte length, which no decoder can read.
---
 pyamf/amf0.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index b427ce2..cd7a86b 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -491,10 +491,11 @@ class Encoder(codec.Encoder):
         l = len(s)
 
         if l > 0xffff:
-            self.stream.write_ulong(l)
-        else:
-            self.stream.write_ushort(l)
+            raise pyamf.EncodeError(
+                'AMF0 names must not be longer than 65535 bytes (got:%d)' % (
+                    l,))
 
+        self.stream.write_ushort(l)
         self.stream.write(s)
 
     def writeBytes(self, s):
-- 
2.43.0


From c74b2b7e99380faa86041724553f2ce6f1300495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 05/71] fix: keep sparse integer keys of mixed arrays in AMF3

Integer keys that do not count up from 0 were dropped, renumbered or
raised KeyError. They are now written as string keys, as the format
requires.
---
 pyamf/amf3.py | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d2413f9..f5aeafa 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1362,45 +1362,34 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        # The AMF3 spec demands that all str based indicies be listed first
-        keys = n.keys()
-        int_keys = []
-        str_keys = []
-
-        for x in keys:
-            if isinstance(x, python.int_types):
-                int_keys.append(x)
-            elif isinstance(x, python.str_types):
-                str_keys.append(x)
-            else:
+        for x in n.keys():
+            if not isinstance(x, python.int_types + python.str_types):
                 raise ValueError("Non int/str key value found in dict")
 
-        # Make sure the integer keys are within range
-        l = len(int_keys)
+        # only the integer keys that count up from 0 are indices, all others
+        # are treated as strings
+        l = 0
 
-        for x in int_keys:
-            if l < x <= 0:
-                # treat as a string key
-                str_keys.append(x)
-                del int_keys[int_keys.index(x)]
+        while l in n:
+            l += 1
 
-        int_keys.sort()
+        self._writeInteger(l << 1 | REFERENCE_BIT)
 
-        # If integer keys don't start at 0, they will be treated as strings
-        if len(int_keys) > 0 and int_keys[0] != 0:
-            for x in int_keys:
-                str_keys.append(str(x))
-                del int_keys[int_keys.index(x)]
+        # The AMF3 spec demands that all str based indicies be listed first
+        for x in n.keys():
+            if isinstance(x, python.int_types):
+                if 0 <= x < l:
+                    continue
 
-        self._writeInteger(len(int_keys) << 1 | REFERENCE_BIT)
+                self.serialiseString(str(x))
+            else:
+                self.serialiseString(x)
 
-        for x in str_keys:
-            self.serialiseString(x)
             self.writeElement(n[x])
 
         self.stream.write_uchar(0x01)
 
-        for k in int_keys:
+        for k in xrange(l):
             self.writeElement(n[k])
 
     def writeProxy(self, obj):
-- 
2.43.0


From 181a0caaf4672abfefc34571df9f2e07026ae734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 06/71] fix: timestamps of dates before 1970 with fractional
 seconds

The microseconds were appended to the decimal representation of the
seconds, which moves negative timestamps in the wrong direction by up to
one second.
---
 pyamf/util/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 035e4aa..475c6d9 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -51,9 +51,8 @@ def get_timestamp(d):
     if isinstance(d, datetime.date) and not isinstance(d, datetime.datetime):
         d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
 
-    msec = str(d.microsecond).rjust(6).replace(' ', '0')
-
-    return float('%s.%s' % (calendar.timegm(d.utctimetuple()), msec))
+    # adding keeps the sign right for dates before 1970
+    return calendar.timegm(d.utctimetuple()) + d.microsecond / 1000000.0
 
 
 def get_datetime(secs):
-- 
2.43.0


From d060669674b55777cb8be5ee83fb229a2e85880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/71] fix: do not use string references for XML in AMF3

An XML document equal to an earlier string was written as a string
reference, which no decoder expects there, and every document shifted the
references of all strings that follow.
---
 pyamf/amf3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index f5aeafa..c631a62 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1537,7 +1537,11 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        self.serialiseString(xml.tostring(n).encode('utf-8'))
+        # unlike strings, XML documents are not part of the string references
+        data = xml.tostring(n).encode('utf-8')
+
+        self._writeInteger(len(data) << 1 | REFERENCE_BIT)
+        self.stream.write(data)
 
 
 def encode_int(n):
-- 
2.43.0


From ee04486cda2cc2a528c41847a5ad1034adf8fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 08/71] fix: refuse objects with empty keys in AMF3

AMF3 uses the empty key as end marker: the rest of the object was written
after it and corrupted the message. Same as for mixed arrays.
---
 pyamf/amf3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index c631a62..f58625b 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1488,6 +1488,11 @@ class Encoder(codec.Encoder):
 
         if definition.encoding == ObjectEncoding.DYNAMIC:
             if attrs:
+                # the empty string marks the end of the attributes
+                if '' in attrs:
+                    raise pyamf.EncodeError(
+                        "objects cannot contain empty string keys")
+
                 for attr, value in attrs.iteritems():
                     if type(attr) in python.int_types:
                         attr = str(attr)
-- 
2.43.0


From 4d1a372e68c3f6b46e5b7046982687a2b85e7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 09/71] fix: cache encoded AMF3 integers under the encoded
 value

Negative integers were cached under their 29 bit complement, so that
encode_int accepted out of range values after such an integer had been
encoded (and the cache was never used for negative ones).
---
 pyamf/amf3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index f58625b..8832138 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1569,6 +1569,8 @@ def encode_int(n):
     if n < MIN_29B_INT or n > MAX_29B_INT:
         raise OverflowError("Out of range")
 
+    key = n
+
     if n < 0:
         n += 0x20000000
 
@@ -1594,7 +1596,7 @@ def encode_int(n):
     else:
         bytes += chr(n & 0x7f)
 
-    ENCODED_INT_CACHE[n] = bytes
+    ENCODED_INT_CACHE[key] = bytes
 
     return bytes
 
-- 
2.43.0


From dfee2d3024866add6aea605d779aaf9261439b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 10/71] fix: raise ReferenceError for all unknown references in
 AMF3

An unknown reference to an array, date, XML document or byte array decoded
to None, one to a string or class raised AttributeError.
---
 pyamf/amf3.py | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 8832138..2e6bc78 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -859,6 +859,32 @@ class Decoder(codec.Decoder):
 
         return (x >> 1, x & REFERENCE_BIT == 0)
 
+    def _getReferenced(self, ref):
+        """
+        Returns the object with the reference C{ref}.
+
+        @raise ReferenceError: Unknown reference found.
+        """
+        obj = self.context.getObject(ref)
+
+        if obj is None:
+            raise pyamf.ReferenceError('Unknown reference %d' % (ref,))
+
+        return obj
+
+    def _getReferencedString(self, ref):
+        """
+        Returns the bytes of the string with the reference C{ref}.
+
+        @raise ReferenceError: Unknown reference found.
+        """
+        result = self.context.getString(ref)
+
+        if result is None:
+            raise pyamf.ReferenceError('Unknown string reference %d' % (ref,))
+
+        return result
+
     def readBytes(self):
         """
         Reads and returns a utf-8 encoded byte array.
@@ -866,7 +892,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            return self.context.getString(length)
+            return self._getReferencedString(length)
 
         if length == 0:
             return ''
@@ -883,7 +909,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            result = self.context.getString(length)
+            result = self._getReferencedString(length)
 
             return self.context.getStringForBytes(result)
 
@@ -904,7 +930,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferenced(ref >> 1)
 
         ms = self.stream.read_double()
         result = util.get_datetime(ms / 1000.0)
@@ -927,7 +953,7 @@ class Decoder(codec.Decoder):
         size = self.readInteger(False)
 
         if size & REFERENCE_BIT == 0:
-            return self.context.getObject(size >> 1)
+            return self._getReferenced(size >> 1)
 
         size >>= 1
 
@@ -966,6 +992,11 @@ class Decoder(codec.Decoder):
         if is_ref:
             class_def = self.context.getClassByReference(ref)
 
+            if class_def is None:
+                raise pyamf.ReferenceError(
+                    'Unknown class reference %d' % (ref,)
+                )
+
             return class_def
 
         name = self.readBytes()
@@ -1019,12 +1050,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            obj = self.context.getObject(ref >> 1)
-
-            if obj is None:
-                raise pyamf.ReferenceError(
-                    'Unknown reference %d' % (ref >> 1,)
-                )
+            obj = self._getReferenced(ref >> 1)
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
@@ -1075,7 +1101,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferenced(ref >> 1)
 
         xmlstring = self.stream.read(ref >> 1)
 
@@ -1109,7 +1135,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferenced(ref >> 1)
 
         buffer = self.stream.read(ref >> 1)
         compressed = False
-- 
2.43.0


From aafa602aaa9431c107c01e19236a713293bb65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 11/71] fix: decode AMF0 XML with non-ASCII characters

The document was decoded to unicode first, which the XML parser then tried
to encode as ASCII.
---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index cd7a86b..8ff20b0 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -379,7 +379,9 @@ class Decoder(codec.Decoder):
         """
         Read XML.
         """
-        data = self.readLongString()
+        l = self.stream.read_ulong()
+        # the XML parser does the decoding
+        data = self.stream.read(l)
         root = xml.fromstring(
             data,
             forbid_dtd=self.context.forbid_dtd,
-- 
2.43.0


From f15d96d19513ec5eaae76bd1eea0334fe24dbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 12/71] fix: keep the stream position when a 24 bit read or an
 append fails

A 24 bit integer was read byte by byte, so that a read past the end left
the stream at its end; append left it there for data of the wrong type.
---
 pyamf/util/pure.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 07161a5..65571de 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -371,8 +371,8 @@ class DataTypeMixIn(object):
 
         n = 0
 
-        for x in order:
-            n += (self.read_uchar() << x)
+        for x, c in zip(order, self._read(3)):
+            n += (ord(c) << x)
 
         return n
 
@@ -607,12 +607,13 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         # seek to the end of the stream
         self.seek(0, 2)
 
-        if hasattr(data, 'getvalue'):
-            self.write_utf8_string(data.getvalue())
-        else:
-            self.write_utf8_string(data)
-
-        self.seek(t)
+        try:
+            if hasattr(data, 'getvalue'):
+                self.write_utf8_string(data.getvalue())
+            else:
+                self.write_utf8_string(data)
+        finally:
+            self.seek(t)
 
     def __add__(self, other):
         old_pos = self.tell()
-- 
2.43.0


From f8db512bc3999b186a3d284df19cf9c30fd6c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 13/71] fix: treat class names that name no importable class as
 unknown

A class name without module, or naming a missing attribute or something
else than a class in a module, made decoding fail with ValueError,
AttributeError or TypeError, also in non-strict mode, instead of being an
unknown alias. A ClassAlias found in a module was registered, but its class
returned in its place.
---
 pyamf/__init__.py      | 13 ++++---------
 pyamf/util/__init__.py |  2 +-
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b71ae91..2b66002 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -406,23 +406,18 @@ def load_class(alias):
         klass = mod_class[-1]
 
         try:
-            module = util.get_module(module)
-        except (ImportError, AttributeError):
+            klass = getattr(util.get_module(module), klass)
+        except (ImportError, AttributeError, ValueError):
+            # ValueError is raised for names that no module can have
             pass
         else:
-            klass = getattr(module, klass)
-
             if isinstance(klass, python.class_types):
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
 
-                return klass.klass
-            else:
-                raise TypeError(
-                    "Expecting class type or ClassAlias from loader"
-                )
+                return klass
 
     # All available methods for finding the class have been exhausted
     raise UnknownClassAlias("Unknown alias for %r" % (alias,))
diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 475c6d9..e5bc3f6 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -197,7 +197,7 @@ def get_module(mod_name):
     """
     Load and return a module based on C{mod_name}.
     """
-    if mod_name is '':
+    if not mod_name:
         raise ImportError('Unable to import empty module')
 
     mod = __import__(mod_name)
-- 
2.43.0


From dc124f8977aa912e05a202ce4f9269953ebac0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 14/71] fix: rewind the stream if it ends inside an element

If the data ended right before a nested element, EOStream was raised
without moving the stream back to the start of the outermost element, so
that decoding could not be continued when more data arrived.
---
 pyamf/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7b87f2..03ea579 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -393,7 +393,7 @@ class Decoder(_Codec):
 
         try:
             return func()
-        except IOError:
+        except (IOError, pyamf.EOStream):
             self.stream.seek(pos)
 
             raise
-- 
2.43.0


From c31399baeb3962ddc903d4bc053d7c2462da9895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 15/71] fix: forget the references of an element that is read
 again

When the data ended inside an element, the objects, strings and classes
read so far stayed in the reference tables. Once more data had arrived and
the element was read again they were added a second time, so that all
references after them resolved to wrong objects.
---
 pyamf/amf0.py  | 18 ++++++++++++++++++
 pyamf/amf3.py  | 19 +++++++++++++++++++
 pyamf/codec.py | 37 +++++++++++++++++++++++++++++++++++++
 3 files changed, 74 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 8ff20b0..e19c6f5 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -107,6 +107,24 @@ class Context(codec.Context):
         if decoder:
             decoder.context.clear()
 
+    def getState(self):
+        decoder = self.extra.get('amf3_decoder', None)
+
+        return (
+            codec.Context.getState(self),
+            decoder and decoder.context.getState()
+        )
+
+    def restoreState(self, state):
+        objects, amf3_state = state
+
+        codec.Context.restoreState(self, objects)
+
+        if amf3_state is None:
+            self.extra.pop('amf3_decoder', None)
+        else:
+            self.extra['amf3_decoder'].context.restoreState(amf3_state)
+
     def getAMF3Encoder(self, amf0_encoder):
         encoder = self.extra.get('amf3_encoder', None)
 
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2e6bc78..2ad538c 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -629,6 +629,25 @@ class Context(codec.Context):
 
         self.class_idx = 0
 
+    def getState(self):
+        return (
+            codec.Context.getState(self),
+            len(self.strings),
+            self.class_idx
+        )
+
+    def restoreState(self, state):
+        objects, strings, class_idx = state
+
+        codec.Context.restoreState(self, objects)
+        self.strings.truncate(strings)
+
+        for ref in xrange(class_idx, self.class_idx):
+            definition = self.class_ref.pop(ref)
+            self.classes.pop(definition.alias.klass, None)
+
+        self.class_idx = class_idx
+
     def getString(self, ref):
         """
         Gets a string based on a reference C{ref}.
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 03ea579..4415429 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -92,6 +92,15 @@ class IndexedCollection(object):
 
         return idx
 
+    def truncate(self, size):
+        """
+        Removes all objects but the first C{size} from this index.
+        """
+        for obj in self.list[size:]:
+            self.dict.pop(self.func(obj), None)
+
+        del self.list[size:]
+
     def __eq__(self, other):
         if isinstance(other, list):
             return self.list == other
@@ -143,6 +152,12 @@ class ByteStringReferenceCollection(IndexedCollection):
 
         return idx
 
+    def truncate(self, size):
+        for byte_string in self.list[size:]:
+            self.dict.pop(byte_string, None)
+
+        del self.list[size:]
+
 
 class Context(object):
     """
@@ -183,6 +198,19 @@ class Context(object):
         self._unicodes = {}
         self.extra = {}
 
+    def getState(self):
+        """
+        Returns a description of the references known at this moment that can
+        be passed to L{restoreState}.
+        """
+        return len(self._objects)
+
+    def restoreState(self, state):
+        """
+        Forgets all references made since C{state} was returned by L{getState}.
+        """
+        self._objects.truncate(state)
+
     def getObject(self, ref):
         """
         Gets an object based on a reference.
@@ -405,10 +433,19 @@ class Decoder(_Codec):
         @raise DecodeError: The ActionScript type is unsupported.
         @raise EOStream: No more data left to decode.
         """
+        if self.__depth == 0:
+            state = self.context.getState()
+
         self.__depth += 1
 
         try:
             element = self._readElement()
+        except (IOError, pyamf.EOStream):
+            if self.__depth == 1:
+                # the element will be read again, when there is more data
+                self.context.restoreState(state)
+
+            raise
         finally:
             self.__depth -= 1
 
-- 
2.43.0


From 9072af09cf096e060172adfea8f86efe7f224099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 16/71] fix: decode AMF3 data inside AMF0 with the options of
 the decoder

Strict mode and the XML options were not passed on to the AMF3 decoder, so
that unknown classes were accepted in strict mode, and allowed document
types were refused.
---
 pyamf/amf0.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index e19c6f5..c12f1c3 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -134,6 +134,7 @@ class Context(codec.Context):
         encoder = pyamf.get_encoder(
             pyamf.AMF3,
             stream=amf0_encoder.stream,
+            strict=amf0_encoder.strict,
             timezone_offset=amf0_encoder.timezone_offset
         )
 
@@ -150,7 +151,10 @@ class Context(codec.Context):
         decoder = pyamf.get_decoder(
             pyamf.AMF3,
             stream=amf0_decoder.stream,
-            timezone_offset=amf0_decoder.timezone_offset
+            strict=amf0_decoder.strict,
+            timezone_offset=amf0_decoder.timezone_offset,
+            forbid_dtd=self.forbid_dtd,
+            forbid_entities=self.forbid_entities
         )
 
         self.extra['amf3_decoder'] = decoder
-- 
2.43.0


From 5ee1d6410e3dcf4171c29ecad8e189d7b0c4c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 17/71] fix: length of non-ASCII header names and response ids

The length was counted in characters, but the name is written in UTF-8:
envelopes with such names could not be decoded.
---
 pyamf/remoting/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f683b58..c4a6306 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -411,6 +411,9 @@ def _write_header(name, header, required, stream, encoder, strict=False):
         the correct header length after writing the header.
     @type strict: C{boolean}
     """
+    if isinstance(name, unicode):
+        name = name.encode('utf8')
+
     stream.write_ushort(len(name))
     stream.write_utf8_string(name)
 
@@ -542,6 +545,9 @@ def _write_body(name, message, stream, encoder, strict=False):
     if isinstance(message, Request):
         response = name
 
+        if isinstance(response, unicode):
+            response = response.encode('utf8')
+
     stream.write_ushort(len(response))
     stream.write_utf8_string(response)
 
-- 
2.43.0


From a7dc96e6b55f672a6182b17195da7c166689267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 18/71] fix: close local shared object files when loading or
 saving fails

A damaged file stayed open after load, and an unencodable value left both
an open and an emptied file after save.
---
 pyamf/sol.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index 6d0c788..b6122af 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -150,15 +150,17 @@ def load(name_or_file):
     elif not hasattr(f, 'read'):
         raise ValueError('Readable stream expected')
 
-    name, values = decode(f.read())
+    try:
+        name, values = decode(f.read())
+    finally:
+        if opened is True:
+            f.close()
+
     s = SOL(name)
 
     for n, v in values.iteritems():
         s[n] = v
 
-    if opened is True:
-        f.close()
-
     return s
 
 
@@ -172,16 +174,21 @@ def save(sol, name_or_file, encoding=pyamf.AMF0):
     f = name_or_file
     opened = False
 
+    if not isinstance(name_or_file, basestring) and not hasattr(f, 'write'):
+        raise ValueError('Writable stream expected')
+
+    # encode first, an existing file is kept if that fails
+    data = encode(sol.name, sol, encoding=encoding).getvalue()
+
     if isinstance(name_or_file, basestring):
         f = open(name_or_file, 'wb+')
         opened = True
-    elif not hasattr(f, 'write'):
-        raise ValueError('Writable stream expected')
-
-    f.write(encode(sol.name, sol, encoding=encoding).getvalue())
 
-    if opened:
-        f.close()
+    try:
+        f.write(data)
+    finally:
+        if opened:
+            f.close()
 
 
 class SOL(dict):
-- 
2.43.0


From 7fc22a1cd74b0a95f51dcedac30bc3044b683b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 19/71] fix: report a request body cut off before its array as
 end of stream

---
 pyamf/remoting/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index c4a6306..fc33e7e 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -457,6 +457,9 @@ def _read_body(stream, decoder, strict=False, logger=None):
 
             return decoder.readElement()
 
+        if not type_byte:
+            raise pyamf.EOStream
+
         if type_byte != '\x0a':
             raise pyamf.DecodeError("Array type required for request body")
 
-- 
2.43.0


From 419fcd791d29a89f0fba9c250718884d979b9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 20/71] fix: do not encode static attributes that are excluded

---
 pyamf/alias.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index a1eec02..ccfd32e 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -227,9 +227,9 @@ class ClassAlias(object):
             if self.exclude_attrs:
                 self.static_attrs_set.difference_update(self.exclude_attrs)
 
-            for a in self.static_attrs_set:
-                if a not in self.static_attrs:
-                    self.static_attrs.remove(a)
+            self.static_attrs = [
+                a for a in self.static_attrs if a in self.static_attrs_set
+            ]
 
         if not self.exclude_attrs:
             self.exclude_attrs = None
-- 
2.43.0


From 97a52b4ebe661d928a54f418193c2bf0a94bc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 21/71] fix: apply static attributes when decoding, unless
 readonly or excluded

---
 pyamf/alias.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index ccfd32e..f5a1c66 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -486,11 +486,6 @@ class ClassAlias(object):
                     )
                 )
 
-            props.difference_update(self.static_attrs)
-
-        if not props:
-            return attrs
-
         if not self.dynamic:
             if not self.decodable_properties:
                 props = set()
-- 
2.43.0


From 863ffd0f6e13c680fe899c95095979d7f85f2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 22/71] fix: inherit dynamic from the closest base class

---
 pyamf/alias.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index f5a1c66..9ee6160 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -182,10 +182,11 @@ class ClassAlias(object):
         if self.amf3 is None and alias.amf3:
             self.amf3 = alias.amf3
 
-        if self.dynamic is None and alias.dynamic is not None:
+        # bases are compiled in resolution order, the closest one counts
+        if self.inherited_dynamic is None:
             self.inherited_dynamic = alias.dynamic
 
-        if alias.sealed is not None:
+        if self.inherited_sealed is None:
             self.inherited_sealed = alias.sealed
 
         if alias.synonym_attrs:
-- 
2.43.0


From 6e7906e420db6ddd2bd2390b66b063c99a092776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 23/71] fix: a base class that does not declare dynamic does
 not decide it

---
 pyamf/alias.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 9ee6160..5c3d43b 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -182,8 +182,9 @@ class ClassAlias(object):
         if self.amf3 is None and alias.amf3:
             self.amf3 = alias.amf3
 
-        # bases are compiled in resolution order, the closest one counts
-        if self.inherited_dynamic is None:
+        # bases are compiled in resolution order, the closest one that says
+        # anything about it counts
+        if self.inherited_dynamic is None and alias.declares_dynamic:
             self.inherited_dynamic = alias.dynamic
 
         if self.inherited_sealed is None:
@@ -195,6 +196,9 @@ class ClassAlias(object):
             self.synonym_attrs.update(x)
 
     def _finalise_compile(self):
+        self.declares_dynamic = (
+            self.dynamic is not None or self.inherited_dynamic is not None)
+
         if self.dynamic is None:
             self.dynamic = True
 
-- 
2.43.0


From 1a8f301360dde3ffc40526d2c6444fcd14ed2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 24/71] fix: encode a class without synonyms whose base class
 has some

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 5c3d43b..f35d32a 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -193,7 +193,7 @@ class ClassAlias(object):
         if alias.synonym_attrs:
             x = self.synonym_attrs
             self.synonym_attrs = alias.synonym_attrs.copy()
-            self.synonym_attrs.update(x)
+            self.synonym_attrs.update(x or {})
 
     def _finalise_compile(self):
         self.declares_dynamic = (
-- 
2.43.0


From 277a52fa110c8f619f81eb4a4029890c0a3e6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 25/71] fix: proxies and synonyms of classes that are not
 dynamic

---
 pyamf/alias.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index f35d32a..791e3e0 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -418,16 +418,9 @@ class ClassAlias(object):
                     attrs[attr] = pyamf.Undefined
 
         if not self.dynamic:
-            if self.non_static_encodable_properties:
-                for attr in self.non_static_encodable_properties:
-                    attrs[attr] = self.getAttribute(obj, attr, codec=codec)
-
-            return attrs
-
-        dynamic_props = util.get_properties(obj)
-
-        if not self.shortcut_encode:
-            dynamic_props = set(dynamic_props)
+            dynamic_props = self.non_static_encodable_properties or []
+        else:
+            dynamic_props = set(util.get_properties(obj))
 
             if self.encodable_properties:
                 dynamic_props.update(self.encodable_properties)
-- 
2.43.0


From e7847c89454f9a08efb7974ef7b0170a5dcf7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 26/71] fix: synonyms of static, readonly, excluded and
 exchanged attributes

---
 pyamf/alias.py | 44 ++++++++++++++++++++++++++------------------
 pyamf/amf0.py  |  1 +
 pyamf/amf3.py  |  8 ++++++--
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 791e3e0..443c927 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -442,18 +442,33 @@ class ClassAlias(object):
                     attrs[k] = context.getProxyForObject(v)
 
         if self.synonym_attrs:
-            missing = object()
+            attrs = self._rename(attrs, self.synonym_attrs.iteritems())
 
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(k, missing)
+        return attrs
 
-                if value is missing:
-                    continue
+    def _rename(self, attrs, names):
+        """
+        Returns a copy of C{attrs} with some of its keys renamed.
 
-                attrs[v] = value
+        @param names: An iterable of old and new names.
+        """
+        attrs = attrs.copy()
+        renamed = dict(
+            (new, attrs.pop(old)) for old, new in names if old in attrs
+        )
+        attrs.update(renamed)
 
         return attrs
 
+    def getExternalName(self, attr):
+        """
+        Returns the name under which the attribute C{attr} is encoded.
+        """
+        if not self.synonym_attrs:
+            return attr
+
+        return self.synonym_attrs.get(attr, attr)
+
     def getDecodableAttributes(self, obj, attrs, codec=None):
         """
         Returns a dictionary of attributes for C{obj} that has been filtered,
@@ -472,6 +487,11 @@ class ClassAlias(object):
 
         changed = False
 
+        if self.synonym_attrs:
+            # all that follows is about the names used by the class
+            attrs = self._rename(
+                attrs, [(v, k) for k, v in self.synonym_attrs.iteritems()])
+
         props = set(attrs.keys())
 
         if self.static_attrs:
@@ -512,23 +532,11 @@ class ClassAlias(object):
                 attrs[k] = context.getObjectForProxy(v)
 
         if changed:
-            # apply all filters before synonyms
             a = {}
 
             [a.__setitem__(p, attrs[p]) for p in props]
             attrs = a
 
-        if self.synonym_attrs:
-            missing = object()
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(v, missing)
-
-                if value is missing:
-                    continue
-
-                attrs[k] = value
-
         return attrs
 
     def applyAttributes(self, obj, attrs, codec=None):
diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index c12f1c3..9546ba6 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -642,6 +642,7 @@ class Encoder(codec.Encoder):
 
         if alias.static_attrs and attrs:
             for key in alias.static_attrs:
+                key = alias.getExternalName(key)
                 value = attrs.pop(key)
 
                 self.serialiseString(key)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2ad538c..93dd4a5 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1520,10 +1520,14 @@ class Encoder(codec.Encoder):
         attrs = alias.getEncodableAttributes(obj, codec=self)
 
         if alias.static_attrs:
+            static_attrs = [
+                alias.getExternalName(attr) for attr in alias.static_attrs
+            ]
+
             if not class_ref:
-                [self.serialiseString(attr) for attr in alias.static_attrs]
+                [self.serialiseString(attr) for attr in static_attrs]
 
-            for attr in alias.static_attrs:
+            for attr in static_attrs:
                 value = attrs.pop(attr)
 
                 self.writeElement(value)
-- 
2.43.0


From a1231afe550fe58e7f65edbc0f948d47c90c36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 27/71] fix: refuse to replace the attribute dictionary of
 decoded objects

---
 pyamf/alias.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 443c927..e552fdd 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -520,6 +520,11 @@ class ClassAlias(object):
             props.difference_update(self.exclude_attrs)
             changed = True
 
+        if '__dict__' in props:
+            # would replace all attributes, whatever their restrictions
+            props.discard('__dict__')
+            changed = True
+
         if self.proxy_attrs is not None and codec:
             context = codec.context
 
-- 
2.43.0


From dca4ea4687cd49c6594591bca4507b189f1d5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 28/71] fix: decode AMF3 objects of classes with a non-ASCII
 alias

---
 pyamf/amf3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 93dd4a5..c7bceb9 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1018,7 +1018,7 @@ class Decoder(codec.Decoder):
 
             return class_def
 
-        name = self.readBytes()
+        name = self.readString()
         alias = None
 
         if name == '':
-- 
2.43.0


From 5698370c07fe295cd0dfc6cf1bc4881bb9218a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 29/71] fix: choose the encoding of classic instances and by
 predicates for each value

---
 pyamf/codec.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 4415429..f6c5da3 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -578,8 +578,12 @@ class Encoder(_Codec):
                 if isinstance(data, type_):
                     return _CustomTypeFunc(self, func)
             except TypeError:
-                if python.callable(type_) and type_(data):
-                    return _CustomTypeFunc(self, func)
+                if python.callable(type_):
+                    # depends on the value, not only on its type
+                    self._cacheable = False
+
+                    if type_(data):
+                        return _CustomTypeFunc(self, func)
 
         if isinstance(data, (list, tuple)):
             return self.writeSequence
@@ -606,16 +610,22 @@ class Encoder(_Codec):
         key = type(data)
         func = None
 
+        if key is types.InstanceType:
+            # all instances of classic classes are of the same type
+            key = data.__class__
+
         try:
             func = self._func_cache[key]
         except KeyError:
+            self._cacheable = True
             func = self.getTypeFunc(data)
 
             if func is None:
                 raise pyamf.EncodeError('Unable to encode %r (type %r)' % (
                     data, key))
 
-            self._func_cache[key] = func
+            if self._cacheable:
+                self._func_cache[key] = func
 
         func(data)
 
-- 
2.43.0


From 21da3832a8fdc2455871552c47c9c72813732ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 30/71] fix: remove custom types that were added as a list

---
 pyamf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 2b66002..119dbb6 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -641,6 +641,9 @@ def remove_type(type_):
     """
     declaration = get_type(type_)
 
+    if isinstance(type_, list):
+        type_ = tuple(type_)
+
     del TYPE_MAP[type_]
 
     return declaration
-- 
2.43.0


From 8aa03dbf07432a39a7411c41d0036637ca346f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 31/71] fix: encode dead weak references as null

---
 pyamf/adapters/_weakref.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_weakref.py b/pyamf/adapters/_weakref.py
index ba0fbad..a49a5ad 100644
--- a/pyamf/adapters/_weakref.py
+++ b/pyamf/adapters/_weakref.py
@@ -20,8 +20,14 @@ class Foo(object):
 weakref_type = type(weakref.ref(Foo()))
 
 
-def get_referent(reference, **kwargs):
-    return reference()
+def get_referent(reference, encoder):
+    referent = reference()
+
+    if referent is None:
+        # nothing is written if C{None} is returned
+        encoder.writeElement(None)
+
+    return referent
 
 
 pyamf.add_type(weakref_type, get_referent)
-- 
2.43.0


From c16705729c2d8c344065631d8f72c04f647c6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 32/71] fix: unregister only the entries that belong to the
 registration

---
 pyamf/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 119dbb6..cf0c2b5 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -284,10 +284,10 @@ def unregister_class(alias):
     except KeyError:
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    if not x.anonymous:
-        del CLASS_CACHE[x.alias]
-
-    del CLASS_CACHE[x.klass]
+    # either may belong to a later registration by now
+    for key in (x.alias, x.klass):
+        if CLASS_CACHE.get(key) is x:
+            del CLASS_CACHE[key]
 
     return x
 
-- 
2.43.0


From bdcb2d518062ff78fb1e769fc63c7e97f17a9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 33/71] fix: keep the registered alias of a class found by its
 module path

---
 pyamf/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index cf0c2b5..78e37de 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -412,6 +412,12 @@ def load_class(alias):
             pass
         else:
             if isinstance(klass, python.class_types):
+                registered = CLASS_CACHE.get(klass)
+
+                if registered and not registered.anonymous:
+                    # don't change the alias that was registered
+                    return registered
+
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
                 CLASS_CACHE[klass.alias] = klass
-- 
2.43.0


From e46929b80b86f3dc866736d1ab1c51f70a5ad51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 34/71] fix: apply the timezone offset to dates without a time

---
 pyamf/amf0.py | 4 ++++
 pyamf/amf3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 9546ba6..ec7ed5f 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -672,6 +672,10 @@ class Encoder(codec.Encoder):
         self.context.addObject(d)
 
         if self.timezone_offset is not None:
+            if not isinstance(d, datetime.datetime):
+                # date arithmetic ignores everything but whole days
+                d = datetime.datetime.combine(d, datetime.time())
+
             d -= self.timezone_offset
 
         secs = util.get_timestamp(d)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index c7bceb9..cd60788 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1343,6 +1343,10 @@ class Encoder(codec.Encoder):
         self.stream.write_uchar(REFERENCE_BIT)
 
         if self.timezone_offset is not None:
+            if not isinstance(n, datetime.datetime):
+                # date arithmetic ignores everything but whole days
+                n = datetime.datetime.combine(n, datetime.time())
+
             n -= self.timezone_offset
 
         ms = util.get_timestamp(n)
-- 
2.43.0


From 0c0148709230e4e8ae8adda863bc81dd48f465bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 35/71] fix: accept a timezone offset in seconds in the codecs,
 as documented

---
 pyamf/codec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index f6c5da3..cdcaeed 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -327,6 +327,10 @@ class _Codec(object):
             forbid_entities=forbid_entities
         )
         self.strict = strict
+
+        if isinstance(timezone_offset, (int, long)):
+            timezone_offset = datetime.timedelta(seconds=timezone_offset)
+
         self.timezone_offset = timezone_offset
 
         self._func_cache = {}
-- 
2.43.0


From 672ac0dffb5bfd45d1840e145ebec20318a0ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 36/71] fix: do not share references between the headers of an
 envelope

---
 pyamf/remoting/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index fc33e7e..a8576d9 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -660,6 +660,9 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
     header_count = stream.read_ushort()
 
     for i in xrange(header_count):
+        # references do not reach from one header into another
+        context.clear()
+
         name, required, data = _read_header(stream, decoder, strict)
         msg.headers[name] = data
 
@@ -716,6 +719,9 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     stream.write_ushort(len(msg.headers))
 
     for name, header in msg.headers.iteritems():
+        # references do not reach from one header into another
+        encoder.context.clear()
+
         _write_header(
             name,
             header,
-- 
2.43.0


From 634cefb465dee29ecb34f5f456515d1b379acc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 37/71] fix: read compressed byte arrays as they are written,
 and only whole ones

---
 pyamf/amf3.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index cd60788..016062c 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -509,6 +509,8 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
     """
 
     _zlib_header = '\x78\x9c'
+    # as written by C{zlib} and by the Flash Player (and L{__str__})
+    _zlib_headers = (_zlib_header, '\x78\xda')
 
     class __amf__:
         amf3 = True
@@ -1159,12 +1161,20 @@ class Decoder(codec.Decoder):
         buffer = self.stream.read(ref >> 1)
         compressed = False
 
-        if buffer[0:2] == ByteArray._zlib_header:
+        if buffer[0:2] in ByteArray._zlib_headers:
+            decompressor = zlib.decompressobj()
+
             try:
-                buffer = zlib.decompress(buffer)
-                compressed = True
+                # the extra byte is left over if, and only if, all of the
+                # buffer is compressed data
+                data = decompressor.decompress(buffer + '\x00')
+                data += decompressor.flush()
             except zlib.error:
                 pass
+            else:
+                if decompressor.unused_data == '\x00':
+                    buffer = data
+                    compressed = True
 
         obj = ByteArray(buffer)
         obj.compressed = compressed
-- 
2.43.0


From 6f7f7af0a189b497201da0ded7074ac756125e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 38/71] fix: unwrap proxied attributes of all classes when
 decoding

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index e552fdd..acc087e 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -295,7 +295,7 @@ class ClassAlias(object):
 
         if (self.decodable_properties or self.static_attrs or
                 self.exclude_attrs or self.readonly_attrs or
-                not self.dynamic or self.external or self.synonym_attrs):
+                self.proxy_attrs or not self.dynamic or self.external or self.synonym_attrs):
             self.shortcut_decode = False
 
         self.is_dict = False
-- 
2.43.0


From c3188c50393b43d925200b9397b356ffd8cb91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 39/71] fix: proxied attributes in AMF0, and together with
 use_proxies

---
 pyamf/amf3.py  | 49 -----------------------------------------------
 pyamf/codec.py | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 49 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 016062c..ab35a15 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -625,7 +625,6 @@ class Context(codec.Context):
         codec.Context.clear(self)
 
         self.strings.clear()
-        self.proxied_objects = {}
         self.classes = {}
         self.class_ref = {}
 
@@ -727,54 +726,6 @@ class Context(codec.Context):
 
         return ref
 
-    def getObjectForProxy(self, proxy):
-        """
-        Returns the unproxied version of C{proxy} as stored in the context, or
-        unproxies the proxy and returns that 'raw' object.
-
-        @see: L{pyamf.flex.unproxy_object}
-        @since: 0.6
-        """
-        obj = self.proxied_objects.get(id(proxy))
-
-        if obj is None:
-            from pyamf import flex
-
-            obj = flex.unproxy_object(proxy)
-
-            self.addProxyObject(obj, proxy)
-
-        return obj
-
-    def addProxyObject(self, obj, proxied):
-        """
-        Stores a reference to the unproxied and proxied versions of C{obj} for
-        later retrieval.
-
-        @since: 0.6
-        """
-        self.proxied_objects[id(obj)] = proxied
-        self.proxied_objects[id(proxied)] = obj
-
-    def getProxyForObject(self, obj):
-        """
-        Returns the proxied version of C{obj} as stored in the context, or
-        creates a new proxied object and returns that.
-
-        @see: L{pyamf.flex.proxy_object}
-        @since: 0.6
-        """
-        proxied = self.proxied_objects.get(id(obj))
-
-        if proxied is None:
-            from pyamf import flex
-
-            proxied = flex.proxy_object(obj)
-
-            self.addProxyObject(obj, proxied)
-
-        return proxied
-
 
 class Decoder(codec.Decoder):
     """
diff --git a/pyamf/codec.py b/pyamf/codec.py
index cdcaeed..e1081ef 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -196,6 +196,8 @@ class Context(object):
         self._objects.clear()
         self._class_aliases = {}
         self._unicodes = {}
+        self._proxies = {}
+        self._unproxied = {}
         self.extra = {}
 
     def getState(self):
@@ -301,6 +303,56 @@ class Context(object):
 
         return s
 
+    def getObjectForProxy(self, proxy):
+        """
+        Returns the unproxied version of C{proxy} as stored in the context, or
+        unproxies the proxy and returns that 'raw' object.
+
+        @see: L{pyamf.flex.unproxy_object}
+        @since: 0.6
+        """
+        try:
+            return self._unproxied[id(proxy)][0]
+        except KeyError:
+            from pyamf import flex
+
+            obj = flex.unproxy_object(proxy)
+
+            self.addProxyObject(obj, proxy)
+
+            return obj
+
+    def getProxyForObject(self, obj):
+        """
+        Returns the proxied version of C{obj} as stored in the context, or
+        creates a new proxied object and returns that.
+
+        @see: L{pyamf.flex.proxy_object}
+        @since: 0.6
+        """
+        try:
+            return self._proxies[id(obj)][1]
+        except KeyError:
+            from pyamf import flex
+
+            proxied = flex.proxy_object(obj)
+
+            self.addProxyObject(obj, proxied)
+
+            return proxied
+
+    def addProxyObject(self, obj, proxied):
+        """
+        Stores a reference to the unproxied and proxied versions of C{obj} for
+        later retrieval.
+
+        @since: 0.6
+        """
+        pair = (obj, proxied)
+
+        self._proxies[id(obj)] = pair
+        self._unproxied[id(proxied)] = pair
+
 
 class _Codec(object):
     """
-- 
2.43.0


From 6f1162e4e167ac8a2a261f34be1571b6265eb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 40/71] fix: small messages with false values, textual ids or
 numeric times

---
 pyamf/flex/messaging.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 67b3093..696be20 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -143,11 +143,15 @@ class AbstractMessage(object):
         """
         obj = getattr(self, attr)
 
-        if not obj:
-            return obj
-
         if attr in ['timestamp', 'timeToLive']:
+            # 0 is not sent
+            if not obj or isinstance(obj, pyamf.python.int_types + (float,)):
+                return obj or None
+
             return pyamf.util.get_timestamp(obj) * 1000.0
+        elif attr == 'headers':
+            # no headers are not sent
+            return obj or None
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
                 return None
@@ -189,7 +193,7 @@ class AbstractMessage(object):
         for flag in self.SMALL_ATTRIBUTE_FLAGS:
             value = self.encodeSmallAttribute(self.SMALL_ATTRIBUTES[flag])
 
-            if value:
+            if value is not None:
                 byte |= flag
                 flag_attrs.append(value)
 
@@ -200,7 +204,7 @@ class AbstractMessage(object):
             attr = self.SMALL_UUIDS[flag]
             value = getattr(self, attr)
 
-            if not value:
+            if not isinstance(value, uuid.UUID):
                 continue
 
             byte |= flag
@@ -422,7 +426,7 @@ class CommandMessage(AsyncMessage):
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
-        if self.operation:
+        if self.operation is not None:
             output.writeUnsignedByte(0x01)
             output.writeObject(self.operation)
         else:
-- 
2.43.0


From 50b27a8e646b1935fd0e640e573f703d0a1bbf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 41/71] fix: pass on interpreter exits while encoding a
 response

---
 pyamf/remoting/gateway/django.py | 2 ++
 pyamf/remoting/gateway/wsgi.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 42e4788..7c995d7 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -178,6 +178,8 @@ class DjangoGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
+        except (KeyboardInterrupt, SystemExit):
+            raise
         except:
             if self.logger:
                 self.logger.exception('Error encoding AMF request')
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index d5d7d6f..f8db10e 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -158,6 +158,8 @@ class WSGIGateway(gateway.BaseGateway):
                 strict=self.strict,
                 timezone_offset=timezone_offset
             )
+        except (KeyboardInterrupt, SystemExit):
+            raise
         except:
             if self.logger:
                 self.logger.exception('Error encoding AMF request')
-- 
2.43.0


From a1d6365f5e8b7c5d7ce596954cb4dc50194d6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 42/71] fix: answer WSGI requests without a valid
 CONTENT_LENGTH

---
 pyamf/remoting/gateway/wsgi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index f8db10e..bb58fd6 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -75,7 +75,12 @@ class WSGIGateway(gateway.BaseGateway):
         if environ['REQUEST_METHOD'] != 'POST':
             return self.badRequestMethod(environ, start_response)
 
-        body = environ['wsgi.input'].read(int(environ['CONTENT_LENGTH']))
+        try:
+            length = max(0, int(environ.get('CONTENT_LENGTH') or 0))
+        except ValueError:
+            length = 0
+
+        body = environ['wsgi.input'].read(length)
         stream = None
         timezone_offset = self._get_timezone_offset()
 
-- 
2.43.0


From 5420973a10aa79dc7994898ac7ed7c188a75eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 43/71] fix: do not evaluate all attributes of a service for
 each request

---
 pyamf/remoting/gateway/__init__.py | 33 ++++++++++++++----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index b5e32aa..c5e0493 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -149,20 +149,27 @@ class ServiceWrapper(object):
 
         return callables
 
+    def _get_method(self, name):
+        """
+        Returns the public method C{name} of the underlying service object, or
+        C{None}. No other attribute of the service is looked at.
+        """
+        if name is None or name.startswith('_'):
+            return None
+
+        method = getattr(self.service, name, None)
+
+        return method if python.callable(method) else None
+
     def getAuthenticator(self, service_request=None):
         if service_request is None:
             return self.authenticator
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_authenticator'):
                 return self.service._pyamf_authenticator
 
-        if service_request.method not in methods:
-            return self.authenticator
-
-        method = methods[service_request.method]
+        method = self._get_method(service_request.method)
 
         if hasattr(method, '_pyamf_authenticator'):
             return method._pyamf_authenticator
@@ -173,18 +180,13 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.expose_request
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_expose_request'):
                 return self.service._pyamf_expose_request
 
             return self.expose_request
 
-        if service_request.method not in methods:
-            return self.expose_request
-
-        method = methods[service_request.method]
+        method = self._get_method(service_request.method)
 
         if hasattr(method, '_pyamf_expose_request'):
             return method._pyamf_expose_request
@@ -195,16 +197,11 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.preprocessor
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_preprocessor'):
                 return self.service._pyamf_preprocessor
 
-        if service_request.method not in methods:
-            return self.preprocessor
-
-        method = methods[service_request.method]
+        method = self._get_method(service_request.method)
 
         if hasattr(method, '_pyamf_preprocessor'):
             return method._pyamf_preprocessor
-- 
2.43.0


From 89ccd732a5cec712e9e2acef8c78fe8d94ec081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 44/71] fix: allow a header to be made optional again

---
 pyamf/remoting/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index a8576d9..93a0541 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -102,7 +102,10 @@ class HeaderCollection(dict):
         if idx not in self:
             raise KeyError("Unknown header %s" % str(idx))
 
-        if idx not in self.required and value:
+        if not value:
+            if idx in self.required:
+                self.required.remove(idx)
+        elif idx not in self.required:
             self.required.append(idx)
 
     def __len__(self):
-- 
2.43.0


From b1c2f9e80139477221bbd1e18de742e97cd42ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 45/71] fix: build faults for errors with any kind of message

---
 pyamf/__init__.py      |  2 +-
 pyamf/remoting/amf0.py |  9 ++++++---
 pyamf/remoting/amf3.py | 15 +++++----------
 pyamf/util/__init__.py | 18 ++++++++++++++++++
 4 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 78e37de..08eac44 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -239,7 +239,7 @@ class ErrorAlias(ClassAlias):
     def getEncodableAttributes(self, obj, **kwargs):
         attrs = ClassAlias.getEncodableAttributes(self, obj, **kwargs)
 
-        attrs['message'] = unicode(obj)
+        attrs['message'] = util.get_text(obj)
         attrs['name'] = obj.__class__.__name__
 
         return attrs
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 8ccf49d..db00229 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -10,7 +10,7 @@ AMF0 Remoting support.
 import traceback
 import sys
 
-from pyamf import remoting
+from pyamf import remoting, util
 from pyamf.remoting import gateway
 
 
@@ -182,10 +182,13 @@ def build_fault(cls, e, tb, include_traceback=False):
     details = None
 
     if include_traceback:
-        details = traceback.format_exception(cls, e, tb)
+        details = [
+            util.get_text(line)
+            for line in traceback.format_exception(cls, e, tb)
+        ]
 
     return remoting.ErrorFault(
         code=code,
-        description=unicode(e),
+        description=util.get_text(e),
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ff26949..4adc0aa 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -17,7 +17,8 @@ import uuid
 import sys
 
 import pyamf.python
-from pyamf import remoting
+from pyamf import remoting, util
+from pyamf.remoting import gateway
 from pyamf.flex import messaging
 
 
@@ -71,19 +72,13 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         traceback.print_exception(cls, e, tb, file=buffer)
 
-        details = buffer.getvalue()
+        details = util.get_text(buffer.getvalue())
 
     faultDetail = None
-    faultString = None
-
-    if hasattr(e, 'message'):
-        faultString = unicode(e.message)
-    elif hasattr(e, 'args') and e.args:
-        if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = unicode(e.args[0])
+    faultString = util.get_text(getattr(e, 'message', None) or e)
 
     if details:
-        faultDetail = unicode(details)
+        faultDetail = details
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index e5bc3f6..2a52b59 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -213,3 +213,21 @@ try:
     datetime.datetime.utcfromtimestamp(-31536000.0)
 except ValueError:
     negative_timestamp_broken = True
+
+
+def get_text(obj):
+    """
+    Returns a textual representation of C{obj}, which might be an exception
+    with any kind of message.
+    """
+    try:
+        return unicode(obj)
+    except UnicodeError:
+        pass
+    except Exception:
+        return u'<unprintable %s object>' % (type(obj).__name__,)
+
+    try:
+        return str(obj).decode('utf-8', 'replace')
+    except Exception:
+        return u'<unprintable %s object>' % (type(obj).__name__,)
-- 
2.43.0


From b2d44913d8d8c4159e74b0de654605cf93aa5d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 46/71] fix: answer malformed RemoteObject requests with an
 error message

---
 pyamf/remoting/amf3.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 4adc0aa..07daa59 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -84,7 +84,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=request.messageId,
+        correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
@@ -142,7 +142,7 @@ class RequestProcessor(object):
                 **kwargs
             )
         else:
-            raise ServerCallFailed("Unknown request: %s" % ro_request)
+            raise ServerCallFailed("Unknown request: %s" % (ro_request,))
 
     def _processCommandMessage(self, amf_request, ro_request, **kwargs):
         """
@@ -208,9 +208,12 @@ class RequestProcessor(object):
         @return: The response to the request.
         @rtype: L{Response<pyamf.remoting.Response>}
         """
-        ro_request = amf_request.body[0]
+        ro_request = None
 
         try:
+            if amf_request.body:
+                ro_request = amf_request.body[0]
+
             body = self._getBody(amf_request, ro_request, **kwargs)
         except (KeyboardInterrupt, SystemExit):
             raise
@@ -229,7 +232,11 @@ class RequestProcessor(object):
 
         ro_response = body.body
 
-        dsid = ro_request.headers.get('DSId', None)
+        dsid = None
+        headers = getattr(ro_request, 'headers', None)
+
+        if isinstance(headers, dict):
+            dsid = headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
@@ -243,7 +250,7 @@ def get_service_name(ro_request):
     """
     Returns the full service name of a RemoteObject request.
     """
-    service_name = ro_request.operation
+    service_name = getattr(ro_request, 'operation', None)
 
     if hasattr(ro_request, 'destination') and ro_request.destination:
         service_name = '%s.%s' % (ro_request.destination, service_name)
-- 
2.43.0


From 0196c3462740a8cda33bf8e3e492e74162514ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 47/71] fix: write small messages as AMF3 inside AMF0 as well

---
 pyamf/flex/messaging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 696be20..ede4a5b 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -522,6 +522,7 @@ class AcknowledgeMessageExt(AcknowledgeMessage):
     """
 
     class __amf__:
+        amf3 = True
         external = True
 
 
@@ -533,6 +534,7 @@ class CommandMessageExt(CommandMessage):
     """
 
     class __amf__:
+        amf3 = True
         external = True
 
 
@@ -544,6 +546,7 @@ class AsyncMessageExt(AsyncMessage):
     """
 
     class __amf__:
+        amf3 = True
         external = True
 
 
-- 
2.43.0


From cde1188dc07d438aac2520fa4069291ed49d373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 48/71] fix: refuse responses without a Content-Type as
 remoting errors

---
 pyamf/remoting/client/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 283b955..9f2c01d 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -465,7 +465,7 @@ class RemotingService(object):
             self.logger.debug('Content-Length: %r', content_length)
             self.logger.debug('Server: %r', server)
 
-        if content_type.split(';')[0].strip() != remoting.CONTENT_TYPE:
+        if (content_type or '').split(';')[0].strip() != remoting.CONTENT_TYPE:
             if self.logger:
                 self.logger.debug('Body = %s', fbh.read())
 
-- 
2.43.0


From 6ecbfef1ca7eb05aa8f7294bebf29f43646ecc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 49/71] fix: do not disclose the source file of a module
 registered as a service

---
 pyamf/remoting/gateway/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index c5e0493..7ad9bd8 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -110,8 +110,10 @@ class ServiceWrapper(object):
             return func
 
         if not python.callable(service):
-            raise UnknownServiceMethodError(
-                "Unknown method %s" % str(self.service))
+            # not the text of the service, which names a module's source file
+            raise UnknownServiceMethodError("Unknown method %s" % (
+                getattr(self.service, '__name__', type(self.service).__name__),
+            ))
 
         return service
 
-- 
2.43.0


From a3d60869128a26e53cca8a6567feeb89e7ac15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 50/71] fix: answer truncated and dangling requests with 400,
 not 500

---
 pyamf/remoting/gateway/django.py | 3 ++-
 pyamf/remoting/gateway/google.py | 4 ++--
 pyamf/remoting/gateway/wsgi.py   | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 7c995d7..857074d 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -108,7 +108,8 @@ class DjangoGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, pyamf.ReferenceError,
+                IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index b63c494..d926f16 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -15,7 +15,7 @@ applications to AMF clients and servers.
 import sys
 import os.path
 
-from pyamf import remoting, DecodeError
+from pyamf import remoting, DecodeError, EOStream
 from pyamf.remoting import gateway
 
 try:
@@ -81,7 +81,7 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (DecodeError, IOError):
+        except (DecodeError, EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index bb58fd6..1720188 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -92,7 +92,8 @@ class WSGIGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, pyamf.ReferenceError,
+                IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From be7fd2c0acfadf8b8b1ac2beb5ac8fa0cd955c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 51/71] fix: import hooks run when a failed import of their
 module is retried

load_module removed whatever name was added last from the list of
modules being loaded, which is another one when the failing module had
imported a hooked module itself, and modules that had loaded were never
removed.
---
 pyamf/util/imports.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 99b8471..04d6d4b 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -39,7 +39,7 @@ class ModuleFinder(object):
 
     @ivar post_load_hooks: C{dict} of C{full module path -> callable} to be
         executed when the module is imported.
-    @ivar loaded_modules: C{list} of modules that this finder has seen. Used
+    @ivar loaded_modules: C{list} of modules that this finder is loading. Used
         to stop recursive imports in L{load_module}
     @see: L{when_imported}
     @since: 0.5
@@ -81,13 +81,11 @@ class ModuleFinder(object):
 
         try:
             __import__(name, {}, {}, [])
+        finally:
+            self.loaded_modules.remove(name)
 
-            mod = sys.modules[name]
-            self._run_hooks(name, mod)
-        except:
-            self.loaded_modules.pop()
-
-            raise
+        mod = sys.modules[name]
+        self._run_hooks(name, mod)
 
         return mod
 
-- 
2.43.0


From 07a8f3f9c39681bb9e566879d09a4a96f4db59f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 52/71] fix: compile a class alias once when threads first use
 it together

---
 pyamf/alias.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index acc087e..4ab28d3 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -8,10 +8,13 @@ Class alias base functionality.
 """
 
 import inspect
+import threading
 
 import pyamf
 from pyamf import python, util
 
+_compile_lock = threading.RLock()
+
 
 class UnknownClassAlias(Exception):
     """
@@ -98,6 +101,16 @@ class ClassAlias(object):
         if self._compiled:
             return
 
+        # the first use of a class may happen in several threads at once
+        _compile_lock.acquire()
+
+        try:
+            if not self._compiled:
+                self._compile()
+        finally:
+            _compile_lock.release()
+
+    def _compile(self):
         self.decodable_properties = set()
         self.encodable_properties = set()
         self.inherited_dynamic = None
-- 
2.43.0


From 220fa9638caf0c8ab737e0e03a9e93d255ef175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 53/71] fix: find the XML libraries safely when threads first
 use them together

---
 pyamf/xml.py | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/pyamf/xml.py b/pyamf/xml.py
index 3fef97f..d89f43d 100644
--- a/pyamf/xml.py
+++ b/pyamf/xml.py
@@ -7,6 +7,8 @@ Provides XML support.
 @since: 0.6
 """
 
+import threading
+
 #: list of supported third party packages that support the C{etree}
 #: interface. At least enough for our needs anyway.
 ETREE_MODULES = [
@@ -22,6 +24,9 @@ modules = {}
 #: The module that will be used to create C{ElementTree} instances.
 ET = None
 
+#: Held while the above change, but not while something is imported.
+_lock = threading.RLock()
+
 __all__ = ['set_default_interface']
 
 
@@ -34,14 +39,20 @@ def set_default_interface(etree):
 
     t = _get_etree_type(etree)
 
-    _types = set(types or [])
-    _types.update([t])
+    _lock.acquire()
+
+    try:
+        _types = set(types or [])
+        _types.update([t])
 
-    types = tuple(_types)
+        # a type is not known before its module is
+        modules[t] = etree
 
-    modules[t] = etree
+        types = tuple(_types)
 
-    old, ET = ET, etree
+        old, ET = ET, etree
+    finally:
+        _lock.release()
 
     return old
 
@@ -122,16 +133,29 @@ def _no_et():
 def _bootstrap():
     global types, modules, ET
 
+    if types is not None and ET is not None:
+        return
+
+    found = None
+
     if types is None:
-        types, modules = find_libs()
+        found = find_libs()
 
-    if ET is None:
-        try:
-            etree = modules[types[0]]
-        except IndexError:
-            _no_et()
+    _lock.acquire()
 
-        set_default_interface(etree)
+    try:
+        if types is None:
+            types, modules = found
+
+        if ET is None:
+            try:
+                etree = modules[types[0]]
+            except IndexError:
+                _no_et()
+
+            set_default_interface(etree)
+    finally:
+        _lock.release()
 
 
 def tostring(element, *args, **kwargs):
-- 
2.43.0


From 50591219bdf01a2bc580448ed2d97a938e4ebaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 54/71] fix: compiling a class does not replace what other
 threads register

---
 pyamf/__init__.py | 50 ++++++++++++++++++++++++++++++++---------------
 pyamf/alias.py    | 12 +++++++++---
 2 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 08eac44..84dcf34 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -11,8 +11,9 @@ is compatible with the Adobe U{Flash Player
 @status: Production/Stable
 """
 
-import types
 import inspect
+import threading
+import types
 
 from pyamf import util, _version
 from pyamf.adapters import register_adapters, get_adapter
@@ -39,6 +40,10 @@ __version__ = version = _version.version
 #: @see: L{register_class}, L{unregister_class}, and L{register_package}
 CLASS_CACHE = {}
 
+#: Held by threads that change L{CLASS_CACHE}, but not while class loaders are
+#: called or modules imported.
+CLASS_CACHE_LOCK = threading.RLock()
+
 #: Class loaders. An iterable of callables that are handed a string alias and
 #: return a class object or C{None} it not handled.
 #: @see: L{register_class_loader} and L{unregister_class_loader}
@@ -265,29 +270,44 @@ def register_class(klass, alias=None):
 
     x = alias_klass(klass, defer=True, **meta)
 
-    if not x.anonymous:
-        CLASS_CACHE[x.alias] = x
-
-    CLASS_CACHE[klass] = x
+    if x.anonymous:
+        _cache_alias(x, klass)
+    else:
+        _cache_alias(x, x.alias, klass)
 
     return x
 
 
+def _cache_alias(alias, *keys):
+    CLASS_CACHE_LOCK.acquire()
+
+    try:
+        for key in keys:
+            CLASS_CACHE[key] = alias
+    finally:
+        CLASS_CACHE_LOCK.release()
+
+
 def unregister_class(alias):
     """
     Opposite of L{register_class}.
 
     @raise UnknownClassAlias: Unknown alias.
     """
+    CLASS_CACHE_LOCK.acquire()
+
     try:
-        x = CLASS_CACHE[alias]
-    except KeyError:
-        raise UnknownClassAlias('Unknown alias %r' % (alias,))
+        try:
+            x = CLASS_CACHE[alias]
+        except KeyError:
+            raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    # either may belong to a later registration by now
-    for key in (x.alias, x.klass):
-        if CLASS_CACHE.get(key) is x:
-            del CLASS_CACHE[key]
+        # either may belong to a later registration by now
+        for key in (x.alias, x.klass):
+            if CLASS_CACHE.get(key) is x:
+                del CLASS_CACHE[key]
+    finally:
+        CLASS_CACHE_LOCK.release()
 
     return x
 
@@ -392,8 +412,7 @@ def load_class(alias):
         if isinstance(klass, python.class_types):
             return register_class(klass, alias)
         elif isinstance(klass, ClassAlias):
-            CLASS_CACHE[klass.alias] = klass
-            CLASS_CACHE[klass.klass] = klass
+            _cache_alias(klass, klass.alias, klass.klass)
 
             return klass
 
@@ -420,8 +439,7 @@ def load_class(alias):
 
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
-                CLASS_CACHE[klass.alias] = klass
-                CLASS_CACHE[klass.klass] = klass
+                _cache_alias(klass, klass.alias, klass.klass)
 
                 return klass
 
diff --git a/pyamf/alias.py b/pyamf/alias.py
index 4ab28d3..53b4d99 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -161,10 +161,16 @@ class ClassAlias(object):
         if klass is object:
             return
 
+        # must not replace what another thread registers
+        pyamf.CLASS_CACHE_LOCK.acquire()
+
         try:
-            alias = pyamf.get_class_alias(klass)
-        except UnknownClassAlias:
-            alias = pyamf.register_class(klass)
+            try:
+                alias = pyamf.get_class_alias(klass)
+            except UnknownClassAlias:
+                alias = pyamf.register_class(klass)
+        finally:
+            pyamf.CLASS_CACHE_LOCK.release()
 
         alias.compile()
 
-- 
2.43.0


From 1ee833a12154ca8a86c78ed756d7aa1f9e8c284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 55/71] fix: proxy Django models can be encoded and decoded

---
 pyamf/adapters/_django_db_models_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 4102e1f..ec51171 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -100,6 +100,10 @@ class DjangoClassAlias(pyamf.ClassAlias):
         parent_fields = []
 
         for field in self.meta.parents.values():
+            if field is None:
+                # a proxy model has no column for its parent
+                continue
+
             parent_fields.append(field.attname)
             del self.relations[field.name]
 
-- 
2.43.0


From 61ea57050ea75b471093671bbd6bd311ab28cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 56/71] fix: decoded instances of derived Django models keep
 their key

---
 pyamf/adapters/_django_db_models_base.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index ec51171..255eea9 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -99,13 +99,14 @@ class DjangoClassAlias(pyamf.ClassAlias):
 
         parent_fields = []
 
-        for field in self.meta.parents.values():
-            if field is None:
-                # a proxy model has no column for its parent
-                continue
+        for klass in [self.klass] + list(self.meta.get_parent_list()):
+            for field in klass._meta.parents.values():
+                if field is None:
+                    # a proxy model has no column for its parent
+                    continue
 
-            parent_fields.append(field.attname)
-            del self.relations[field.name]
+                parent_fields.append(field.attname)
+                self.relations.pop(field.name, None)
 
         self.exclude_attrs.update(parent_fields)
 
@@ -239,11 +240,18 @@ class DjangoClassAlias(pyamf.ClassAlias):
         # django also forces the use only one attribute as primary key, so
         # our obj._meta.pk.attname check is sufficient)
         pk_attr = obj._meta.pk.attname
-        pk = attrs.pop(pk_attr, None)
+        key = obj._meta.pk
+
+        # the key of a derived model is a link to its parent, which is not
+        # sent, it has the key of the parent
+        while key.rel is not None and getattr(key.rel, 'parent_link', False):
+            key = key.rel.to._meta.pk
+
+        pk = attrs.pop(key.attname, None)
 
         if pk:
             if pk is fields.NOT_PROVIDED:
-                attrs[pk_attr] = pk
+                attrs[key.attname] = pk
             else:
                 # load the object from the database
                 try:
-- 
2.43.0


From 6d334479b9daaf454e2265dc157d093b39263184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 57/71] fix: the key of a decoded new Django object is kept

---
 pyamf/adapters/_django_db_models_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 255eea9..3ff2df7 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -258,7 +258,10 @@ class DjangoClassAlias(pyamf.ClassAlias):
                     loaded_instance = self.klass.objects.filter(pk=pk)[0]
                     obj.__dict__ = loaded_instance.__dict__
                 except IndexError:
-                    pass
+                    # a new object, only generated keys are to be generated
+                    if not isinstance(key, fields.AutoField):
+                        setattr(obj, key.attname, pk)
+                        setattr(obj, pk_attr, pk)
 
         if not getattr(obj, pk_attr):
             for name, relation in self.relations.iteritems():
-- 
2.43.0


From 53cdf66e1450eaf2979d209c3243c38c9c580ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 58/71] fix: unsaved Django objects with many-to-many fields
 can be encoded

---
 pyamf/adapters/_django_db_models_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 3ff2df7..bb548f6 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -207,7 +207,11 @@ class DjangoClassAlias(pyamf.ClassAlias):
                 attrs[name] = getattr(obj, name)
 
             if isinstance(relation, models.ManyToManyField):
-                attrs[name] = [x for x in getattr(obj, name).all()]
+                if obj.pk is None:
+                    # nothing can be related to an unsaved object
+                    attrs[name] = []
+                else:
+                    attrs[name] = [x for x in getattr(obj, name).all()]
             else:
                 attrs.pop(relation.attname, None)
 
-- 
2.43.0


From d8b860843e6aa97e0caa195ae21b66ac9ea8e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 59/71] fix: Django models whose manager has another name can
 be decoded

---
 pyamf/adapters/_django_db_models_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index bb548f6..7d1b5ca 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -259,7 +259,7 @@ class DjangoClassAlias(pyamf.ClassAlias):
             else:
                 # load the object from the database
                 try:
-                    loaded_instance = self.klass.objects.filter(pk=pk)[0]
+                    loaded_instance = self.klass._default_manager.filter(pk=pk)[0]
                     obj.__dict__ = loaded_instance.__dict__
                 except IndexError:
                     # a new object, only generated keys are to be generated
-- 
2.43.0


From 966c1d4807957a683a2646bf6f26cce051573df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 60/71] fix: values of the fields of proxy Django models are
 converted

---
 pyamf/adapters/_django_db_models_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 7d1b5ca..e5b2632 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -79,7 +79,8 @@ class DjangoClassAlias(pyamf.ClassAlias):
         self.relations = {}
         self.columns = []
 
-        self.meta = self.klass._meta
+        # a proxy model has the fields of the model it stands for
+        self.meta = self.klass._meta.concrete_model._meta
 
         for name in self.meta.get_all_field_names():
             x = self.meta.get_field_by_name(name)[0]
@@ -99,7 +100,8 @@ class DjangoClassAlias(pyamf.ClassAlias):
 
         parent_fields = []
 
-        for klass in [self.klass] + list(self.meta.get_parent_list()):
+        for klass in [self.meta.concrete_model] + \
+                list(self.meta.get_parent_list()):
             for field in klass._meta.parents.values():
                 if field is None:
                     # a proxy model has no column for its parent
-- 
2.43.0


From a717622c745dd2010420c5d5b45b110d01a49643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 61/71] fix: attributes of classes with __setitem__ are decoded
 as attributes

---
 pyamf/alias.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 53b4d99..fad6f4e 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -590,7 +590,12 @@ class ClassAlias(object):
 
                 return
 
-        util.set_attrs(obj, attrs)
+        if self.is_dict:
+            util.set_attrs(obj, attrs)
+        else:
+            # even if the object has items as well
+            for name, value in attrs.iteritems():
+                setattr(obj, name, value)
 
     def getCustomProperties(self):
         """
-- 
2.43.0


From d49927cb097270ba45cdde483c8befa055874f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 62/71] fix: objects with an attribute called keys can be
 encoded

---
 pyamf/alias.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index fad6f4e..6ff85b4 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -439,7 +439,8 @@ class ClassAlias(object):
         if not self.dynamic:
             dynamic_props = self.non_static_encodable_properties or []
         else:
-            dynamic_props = set(util.get_properties(obj))
+            # not obj.keys(), whatever that is
+            dynamic_props = set(getattr(obj, '__dict__', ()))
 
             if self.encodable_properties:
                 dynamic_props.update(self.encodable_properties)
-- 
2.43.0


From 63b2a9c65a784fb006eff69d8687f9bbbb8b02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 63/71] fix: declarations of dict classes are respected by the
 encoder

---
 pyamf/alias.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 6ff85b4..a8b8a96 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -229,7 +229,7 @@ class ClassAlias(object):
                 else:
                     self.dynamic = self.inherited_dynamic
 
-        if self.sealed:
+        if self.sealed and not issubclass(self.klass, dict):
             self.dynamic = False
 
         if self.amf3 is None:
@@ -421,22 +421,26 @@ class ClassAlias(object):
         if not self._compiled:
             self.compile()
 
-        if self.is_dict:
-            return dict(obj)
-
         if self.shortcut_encode and self.dynamic:
+            if self.is_dict:
+                return dict(obj)
+
             return obj.__dict__.copy()
 
         attrs = {}
 
-        if self.static_attrs:
+        if self.is_dict:
+            attrs = self._getEncodableItems(obj)
+        elif self.static_attrs:
             for attr in self.static_attrs:
                 try:
                     attrs[attr] = self.getAttribute(obj, attr, codec=codec)
                 except AttributeError:
                     attrs[attr] = pyamf.Undefined
 
-        if not self.dynamic:
+        if self.is_dict:
+            dynamic_props = []
+        elif not self.dynamic:
             dynamic_props = self.non_static_encodable_properties or []
         else:
             # not obj.keys(), whatever that is
@@ -466,6 +470,23 @@ class ClassAlias(object):
 
         return attrs
 
+    def _getEncodableItems(self, obj):
+        """
+        The items of a C{dict} take the place of attributes.
+        """
+        items = dict(obj)
+
+        for name in self.static_attrs or []:
+            items.setdefault(name, pyamf.Undefined)
+
+        for name in items.keys():
+            if self.exclude_attrs and name in self.exclude_attrs:
+                del items[name]
+            elif not self.dynamic and name not in self.static_attrs:
+                del items[name]
+
+        return items
+
     def _rename(self, attrs, names):
         """
         Returns a copy of C{attrs} with some of its keys renamed.
-- 
2.43.0


From cc39bcd19560b1cefb375cfba7c97cbd580fe208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 64/71] fix: declarations of Django relations and synonyms of
 model fields are respected

---
 pyamf/adapters/_django_db_models_base.py | 62 ++++++++++++++++--------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index e5b2632..37d34c4 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -186,17 +186,33 @@ class DjangoClassAlias(pyamf.ClassAlias):
 
         return value
 
-    def getEncodableAttributes(self, obj, **kwargs):
-        attrs = pyamf.ClassAlias.getEncodableAttributes(self, obj, **kwargs)
+    def getAttribute(self, obj, attr, codec=None):
+        """
+        Get the attribute C{attr} from C{obj}, as the value that is encoded.
+        """
+        if isinstance(self.relations.get(attr), models.ManyToManyField):
+            if obj.pk is None:
+                # nothing can be related to an unsaved object
+                return []
 
-        if not attrs:
-            attrs = {}
+            return [x for x in getattr(obj, attr).all()]
 
-        for name, prop in self.fields.iteritems():
-            if name not in attrs.keys():
-                continue
+        value = pyamf.ClassAlias.getAttribute(self, obj, attr, codec=codec)
+
+        if attr in self.fields:
+            return self._encodeValue(self.fields[attr], value)
+
+        return value
+
+    def getEncodableAttributes(self, obj, codec=None):
+        attrs = pyamf.ClassAlias.getEncodableAttributes(
+            self,
+            obj,
+            codec=codec
+        )
 
-            attrs[name] = self._encodeValue(prop, getattr(obj, name))
+        if not attrs:
+            attrs = {}
 
         keys = attrs.keys()
 
@@ -205,17 +221,25 @@ class DjangoClassAlias(pyamf.ClassAlias):
                 del attrs[key]
 
         for name, relation in self.relations.iteritems():
-            if '_%s_cache' % name in obj.__dict__:
-                attrs[name] = getattr(obj, name)
-
-            if isinstance(relation, models.ManyToManyField):
-                if obj.pk is None:
-                    # nothing can be related to an unsaved object
-                    attrs[name] = []
-                else:
-                    attrs[name] = [x for x in getattr(obj, name).all()]
-            else:
-                attrs.pop(relation.attname, None)
+            if not isinstance(relation, models.ManyToManyField):
+                attrs.pop(self.getExternalName(relation.attname), None)
+
+                if '_%s_cache' % name not in obj.__dict__:
+                    continue
+
+            if self.exclude_attrs and name in self.exclude_attrs:
+                continue
+
+            if self.static_attrs and name in self.static_attrs:
+                # already there
+                continue
+
+            value = self.getAttribute(obj, name)
+
+            if self.proxy_attrs and name in self.proxy_attrs and codec:
+                value = codec.context.getProxyForObject(value)
+
+            attrs[self.getExternalName(name)] = value
 
         return attrs
 
-- 
2.43.0


From c69640a4385083dd111052bd5bbdf509aca1cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 65/71] fix: model instances whose key is undefined are not
 stored

---
 pyamf/adapters/_django_db_models_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 37d34c4..400524b 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -191,7 +191,7 @@ class DjangoClassAlias(pyamf.ClassAlias):
         Get the attribute C{attr} from C{obj}, as the value that is encoded.
         """
         if isinstance(self.relations.get(attr), models.ManyToManyField):
-            if obj.pk is None:
+            if obj.pk is None or obj.pk is fields.NOT_PROVIDED:
                 # nothing can be related to an unsaved object
                 return []
 
@@ -342,7 +342,7 @@ def writeDjangoObject(obj, encoder=None):
     """
     s = obj.pk
 
-    if s is None:
+    if s is None or s is fields.NOT_PROVIDED:
         encoder.writeObject(obj)
 
         return
-- 
2.43.0


From 89e7589567fee734e76dc9ccbd644608241dcd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 66/71] fix: a class alias type takes over anonymous and
 renamed classes

---
 pyamf/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 84dcf34..c0e60dd 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -807,17 +807,19 @@ def register_alias_type(klass, *args):
 
     ALIAS_TYPES[klass] = args
 
+    replaced = {}
+
     for k, v in CLASS_CACHE.copy().iteritems():
         new_alias = util.get_class_alias(v.klass)
 
         if new_alias is klass:
-            meta = util.get_class_meta(v.klass)
-            meta['alias'] = v.alias
+            if id(v) not in replaced:
+                meta = util.get_class_meta(v.klass)
+                meta['alias'] = None if v.anonymous else v.alias
 
-            alias_klass = klass(v.klass, **meta)
+                replaced[id(v)] = klass(v.klass, defer=True, **meta)
 
-            CLASS_CACHE[k] = alias_klass
-            CLASS_CACHE[v.klass] = alias_klass
+            CLASS_CACHE[k] = replaced[id(v)]
 
 
 def unregister_alias_type(klass):
-- 
2.43.0


From 7b47fc3f262a67ba289ea9624647686702c1e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 67/71] fix: a small message is not offered where it loses
 attributes

---
 pyamf/flex/messaging.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index ede4a5b..4508ec8 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -233,6 +233,19 @@ class AbstractMessage(object):
         """
         raise NotImplementedError
 
+    def _getSmallMessage(self, klass):
+        """
+        Return this message as an instance of C{klass}, which must have all of
+        its attributes.
+        """
+        message = klass(**self.__dict__)
+
+        for attr in self.__dict__:
+            if attr not in message.__dict__:
+                raise NotImplementedError
+
+        return message
+
 
 class AsyncMessage(AbstractMessage):
     """
@@ -295,7 +308,7 @@ class AsyncMessage(AbstractMessage):
 
         @since: 0.5
         """
-        return AsyncMessageExt(**self.__dict__)
+        return self._getSmallMessage(AsyncMessageExt)
 
 
 class AcknowledgeMessage(AsyncMessage):
@@ -338,7 +351,7 @@ class AcknowledgeMessage(AsyncMessage):
 
         @since: 0.5
         """
-        return AcknowledgeMessageExt(**self.__dict__)
+        return self._getSmallMessage(AcknowledgeMessageExt)
 
 
 class CommandMessage(AsyncMessage):
@@ -438,7 +451,7 @@ class CommandMessage(AsyncMessage):
 
         @since: 0.5
         """
-        return CommandMessageExt(**self.__dict__)
+        return self._getSmallMessage(CommandMessageExt)
 
 
 class ErrorMessage(AcknowledgeMessage):
-- 
2.43.0


From 46e4c5ffd092ec1640a52de548873fb1066a8526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 68/71] fix: credentials may be text

---
 pyamf/remoting/client/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 9f2c01d..5e9af97 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -518,11 +518,14 @@ class RemotingService(object):
         """
         Sets authentication credentials for accessing the remote gateway.
         """
+        if isinstance(username, str):
+            username = username.decode('utf-8')
+
+        if isinstance(password, str):
+            password = password.decode('utf-8')
+
         self.addHeader(
             'Credentials',
-            dict(
-                userid=username.decode('utf-8'),
-                password=password.decode('utf-8')
-            ),
+            dict(userid=username, password=password),
             True
         )
-- 
2.43.0


From 093ace194b50738e051a8514c5d33d9e7d14cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 69/71] fix: the use_amf3 option of the AMF0 encoder is
 accepted

---
 pyamf/amf0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index ec7ed5f..2a7079b 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -425,10 +425,10 @@ class Encoder(codec.Encoder):
     """
 
     def __init__(self, *args, **kwargs):
-        codec.Encoder.__init__(self, *args, **kwargs)
-
         self.use_amf3 = kwargs.pop('use_amf3', False)
 
+        codec.Encoder.__init__(self, *args, **kwargs)
+
     def buildContext(self, **kwargs):
         return Context(**kwargs)
 
-- 
2.43.0


From 14f8246830418399d57c2556cad02ebbe193eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 70/71] fix: names and ids of record sets may be any text

---
 pyamf/amf0.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 2a7079b..cd96615 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -751,10 +751,12 @@ class RecordSet(object):
         )
 
         if self.service is not None:
-            ret.update({'serviceName': str(self.service['name'])})
+            ret.update({
+                'serviceName': util.get_text(self.service['name'])
+            })
 
         if self.id is not None:
-            ret.update({'id': str(self.id)})
+            ret.update({'id': util.get_text(self.id)})
 
         return ret
 
-- 
2.43.0


From 835e3ce0b51f87801b322c5633537aab86b6da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 71/71] fix: a remote-object request without a usable name can
 be logged

---
 pyamf/remoting/amf3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 07daa59..9e3fb9a 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -223,9 +223,11 @@ class RequestProcessor(object):
             if hasattr(self.gateway, 'onServiceError'):
                 self.gateway.onServiceError(ro_request, fault)
             elif self.logger:
+                # there may be no name, when that is what the error is about
                 self.logger.exception(
-                    'Unexpected error while processing request %r',
-                    get_service_name(ro_request)
+                    'Unexpected error while processing request %r of %r',
+                    getattr(ro_request, 'operation', None),
+                    getattr(ro_request, 'destination', None)
                 )
 
             body = remoting.Response(fault, status=remoting.STATUS_ERROR)
-- 
2.43.0

