From 35c039b4a5fd266497911bd7ba8bc36a15169264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 01/29] fix: raise EOFError if the file ends directly before
 the header extension

---
 src/eventio/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..b62281a 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -215,7 +215,7 @@ def read_header(byte_stream, offset, toplevel=False):
     '''Read the next header object from the file
     Assumes position of `byte_stream` is at the beginning of a new header.
 
-    Raises stop iteration if not enough data is available.
+    Raises EOFError if not enough data is available.
     '''
 
     header_bytes = byte_stream.read(constants.OBJECT_HEADER_SIZE)
@@ -226,7 +226,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
-- 
2.43.0


From f36d370f7b2ab29d1cd2b0916dfce04795c7adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 02/29] fix: raise WrongType instead of AttributeError for
 objects of the wrong type

---
 src/eventio/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index b62281a..f29425e 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -271,11 +271,12 @@ class EventIOObject:
     eventio_type = None
 
     def __init__(self, header, filehandle):
-        if self.eventio_type is not None and header.type != self.eventio_type:
-            raise WrongType(self.eventio_type, header.type)
-
         self._filehandle = filehandle
         self.header = header
+
+        if self.eventio_type is not None and header.type != self.eventio_type:
+            raise WrongType(self.__class__, self)
+
         self.address = self.header.content_address
         self.size = self.header.content_size
         self.only_subobjects = self.header.only_subobjects
-- 
2.43.0


From 3c9cd6b49a0945f6af9d79a91d753cd177d66719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 03/29] fix: raise the error found by peek in the following
 call to next

---
 src/eventio/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index f29425e..1947c0e 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -121,6 +121,10 @@ class EventIOFile:
             o, self.next = self.next, None
             return o
 
+        if self.peek_error is not None:
+            e, self.peek_error = self.peek_error, None
+            raise e
+
         return self._read_next_object()
 
     def _read_next_object(self):
-- 
2.43.0


From e83120fe6e80c0857bb0bc55ff54067905517b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 04/29] fix: keep reads and seeks of an object inside its own
 payload

The position of an object was not used for reading, so reading after another
object moved the shared filehandle returned foreign bytes. Seeking behind the
end resulted in unlimited reads, relative seeks were relative to whoever used
the filehandle last.
---
 src/eventio/base.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 1947c0e..7abd1b8 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -294,11 +294,14 @@ class EventIOObject:
         ----------
         size: int
             read `size` bytes from the payload of this object
-            If size == -1 (default), read all remaining bytes.
+            If size is negative (default), read all remaining bytes.
         '''
-        # read all remaining bytes.
-        remaining = self.size - self._pos
-        if size == -1 or size > remaining:
+        # other objects might share our filehandle and have moved it
+        self._filehandle.seek(self.address + self._pos)
+
+        # never read past the end of the payload
+        remaining = max(self.size - self._pos, 0)
+        if size < 0 or size > remaining:
             size = remaining
 
         data = self._filehandle.read(size)
@@ -337,19 +340,22 @@ class EventIOObject:
     def seek(self, offset, whence=0):
         address = self.address
         if whence == 0:
-            assert offset >= 0
-            new_pos = self._filehandle.seek(address + offset, whence)
+            new_pos = offset
         elif whence == 1:
-            new_pos = self._filehandle.seek(offset, whence)
+            new_pos = self._pos + offset
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-            new_pos = self._filehandle.seek(address + self.size - offset, 0)
+            new_pos = self.size - offset
         else:
             raise ValueError(
                 'invalid whence ({}, should be 0, 1 or 2)'.format(whence)
             )
-        self._pos = new_pos - address
+
+        if new_pos < 0:
+            raise ValueError('Cannot seek to before the start of the payload')
+
+        self._pos = self._filehandle.seek(address + new_pos) - address
         return self._pos
 
     def tell(self):
-- 
2.43.0


From ad20213b9db3af073fe9a875bc73fb72c469b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 05/29] fix: raise EOFError for files truncated in the payload
 of the last object

Such files were silently treated as if the last object was complete.
---
 src/eventio/base.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 7abd1b8..d783b6a 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -1,4 +1,5 @@
 from io import BufferedIOBase
+import os
 import warnings
 import weakref
 import struct
@@ -65,6 +66,7 @@ class EventIOFile:
         self.path = path
         self.read_process = None
         self.zstd = False
+        self._uncompressed = False
         self.next = None
         self.peek_error = None
         self._filehandle: BufferedIOBase | None = None
@@ -103,6 +105,7 @@ class EventIOFile:
         else:
             log.info('Found uncompressed file')
             self._filehandle = open(path, mode='rb')
+            self._uncompressed = True
 
         self._next_header_pos = 0
 
@@ -128,8 +131,18 @@ class EventIOFile:
         return self._read_next_object()
 
     def _read_next_object(self):
-        self._filehandle.seek(self._next_header_pos)
-        read_sync_marker(self._filehandle)
+        pos = self._filehandle.seek(self._next_header_pos)
+        if pos < self._next_header_pos:
+            raise EOFError('File seems to be truncated')
+
+        try:
+            read_sync_marker(self._filehandle)
+        except StopIteration:
+            # seeking behind the end of an uncompressed file is possible
+            if self._is_beyond_end(self._next_header_pos):
+                raise EOFError('File seems to be truncated')
+            raise
+
         header = read_header(
             self._filehandle,
             toplevel=True,
@@ -142,6 +155,17 @@ class EventIOFile:
             filehandle=self._filehandle,
         )
 
+    def _is_beyond_end(self, position):
+        '''Check if ``position`` is behind the end of an uncompressed file.
+
+        For compressed files, this is not necessary, as it is not possible
+        to seek behind the end of the decompressed data.
+        '''
+        if not self._uncompressed:
+            return False
+
+        return position > os.fstat(self._filehandle.fileno()).st_size
+
     def peek(self):
         if self.next is None and self.peek_error is None:
             try:
-- 
2.43.0


From 7bd85e2a0b0ebb0edefa388f64298dfd7c3c3e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 06/29] fix: always parse from the start of the payload

Some objects could only be parsed once and only directly after being read.
---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..1c6c660 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1807,6 +1810,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1821,6 +1825,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1841,6 +1846,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1860,6 +1866,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From 885d4bfa9c4b44cc1b325e6b925cb27c6e03c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 07/29] fix: read the correct number of float parameters in
 MCExtraParams

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 1c6c660..3861457 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1466,7 +1466,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From c557a527c87b74fd96ea1aa7ac4eb01e9350dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 08/29] fix: read the extra parameters of MCShower version 2

---
 src/eventio/simtel/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 3861457..c32ba66 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1445,9 +1445,9 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
-- 
2.43.0


From 55833e91e35cb0cf3ba8b2cb3e1e549db86ff14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 09/29] fix: fix reading of integer histograms

---
 src/eventio/histograms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..f86f50a 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -59,7 +59,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From 6c015d7904100d75b9a31166ea526a09ae4dc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 10/29] fix: fix reading of physical addresses in
 TelescopeEventHeader version 0 and 1

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index c32ba66..0666e56 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -817,7 +817,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From c5a7de6c19b648a2d6df71191561529515c7150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 11/29] fix: fix reading of TriggerInformation version 0 and 1

---
 src/eventio/simtel/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 0666e56..6c86671 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -649,8 +649,9 @@ class TriggerInformation(EventIOObject):
         # Setting bits 0x10, 0x20, 0x40 instead of 0x100, 0x200, 0x400. 
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
-        # existing before the fix was introduced.
-        if version <= 3:
+        # existing before the fix was introduced. Versions before 2 do not
+        # contain the mask.
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From 37830b1739fcceb2b70b17994a270da2cb90d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 12/29] fix: use the same key for curved_surface in all
 versions of CameraSettings

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 6c86671..2935b29 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -253,7 +253,7 @@ class CameraSettings(TelescopeObject):
                 cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
                 cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
         else:
-            cam['curve_surface'] = 0
+            cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
             cam['common_pixel_shape'] = 0
             cam['pixel_z'] = np.zeros(n_pixels, dtype='f4')
-- 
2.43.0


From 9296655cc0e7081c5150bb3fe9a4a89d9f177617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 13/29] fix: actually ignore unexpected objects in
 CalibrationPhotoelectrons

---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..8e56376 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -362,6 +362,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From f430a9d418282e30f4e138fd33d671c10a0dd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 14/29] fix: restart iteration over IACT events at the first
 event after peek

---
 src/eventio/iact/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..ed87743 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -139,6 +139,9 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._next_header_pos = self._first_event_byte
+        # forget objects that were already peeked
+        self.next = None
+        self.peek_error = None
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 44c17c85523762e7e3ae7ababd34784ddea7bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 15/29] fix: use the same dtype for empty and non-empty compact
 photon bunches

---
 src/eventio/iact/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..2339458 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -288,7 +288,8 @@ class Photons(EventIOObject):
             dtype = self.long_dtype
 
         if self.n_bunches == 0:
-            return np.array([], dtype=dtype)
+            # compact data is converted to the long format
+            return np.array([], dtype=self.long_dtype)
 
         count = self.n_bunches if chunksize is None else chunksize
 
-- 
2.43.0


From dabab0c0c62aff4b7dbd5d05d2d19a7bc360b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 16/29] fix: raise EOFError for truncated varints

The available bytes were decoded as if they were a shorter varint and more than
nine bytes overflowed the buffer on the stack.
---
 src/eventio/var_int.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..a3d9e6d 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -50,7 +50,13 @@ cpdef uint8_t get_length_of_varint(const uint8_t first_byte):
 @cython.boundscheck(False)
 @cython.wraparound(False)  # disable negative indexing
 cpdef uint64_t parse_varint(const uint8_t[:] var_int_bytes):
+    if var_int_bytes.shape[0] < 1 or var_int_bytes.shape[0] > 9:
+        raise ValueError('A varint consists of 1 to 9 bytes')
+
     cdef uint8_t length = var_int_bytes.shape[0]
+    if length < get_length_of_varint(var_int_bytes[0]):
+        raise EOFError('File seems to be truncated')
+
     cdef uint64_t v[9]
     cdef uint8_t i  = 0
     for i in range(length):
-- 
2.43.0


From ff69d7bf53ecbe9f5f2a48d9a1de5b63b6df7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 17/29] fix: decode nine byte values correctly in varint_array

---
 src/eventio/var_int.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index a3d9e6d..ad509fa 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -162,10 +162,10 @@ cpdef varint_array(
     cdef cnp.npy_intp[1] shape = [n_elements];
     cdef cnp.ndarray[int64_t, ndim=1] output = cnp.PyArray_SimpleNew(1, shape, cnp.NPY_INT64)
 
-    cdef int64_t val
+    cdef uint64_t val
     cdef uint8_t length
 
-    cdef uint8_t one = 1;
+    cdef uint64_t one = 1;
     cdef uint64_t i
     cdef uint64_t pos = offset
 
@@ -175,7 +175,7 @@ cpdef varint_array(
         pos += length
 
         if (val & one):
-            output[i] = -(val >> one) - one
+            output[i] = -<int64_t>(val >> one) - 1
         else:
             output[i] = val >> one
 
-- 
2.43.0


From d01c44a49bd280d8534e9edaa60603938feff4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 18/29] fix: do not read beyond the end of the payload in
 compiled parsers

---
 src/eventio/simtel/parsing.pyx | 11 +++++++++++
 src/eventio/var_int.pyx        | 15 +++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index e03a670..9c1c547 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -7,6 +7,14 @@ cimport numpy as np
 
 INT16 = np.int16
 
+
+cdef inline int check_available(const uint8_t[:] data, uint64_t pos, uint64_t n_bytes) except -1:
+    '''Raise an EOFError if there are less than n_bytes after pos in data'''
+    if pos + n_bytes > <uint64_t> data.shape[0]:
+        raise EOFError('File seems to be truncated')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef read_sector_information_v1(
     const uint8_t[:] data,
@@ -23,12 +31,14 @@ cpdef read_sector_information_v1(
     cdef uint64_t pos = offset
     for i in range(n_pixels):
 
+        check_available(data, pos, 2)
         short_ptr = <int16_t*> &data[pos]
         n = short_ptr[0]
         pos += 2
 
         sector = array.array('h')
         for j in range(n):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &data[pos]
             sector.append(short_ptr[0])
             pos += 2
@@ -64,6 +74,7 @@ cpdef dict parse_mc_event(
     cdef float xcore, ycore, aweight
     cdef int32_t shower_num
 
+    check_available(data, pos, 16 if version >= 2 else 12)
     shower_num = (<int32_t*> &data[pos])[0]
     pos += 4
     xcore = (<float*> &data[pos])[0]
diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index ad509fa..150a84a 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -8,6 +8,13 @@ from libc.math cimport NAN
 cnp.import_array()
 
 
+cdef inline int check_available(const uint8_t[:] data, uint64_t pos, uint64_t n_bytes) except -1:
+    '''Raise an EOFError if there are less than n_bytes after pos in data'''
+    if pos + n_bytes > <uint64_t> data.shape[0]:
+        raise EOFError('File seems to be truncated')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef (uint64_t, uint8_t) unsigned_varint(const uint8_t[:] data, uint64_t offset=0):
     cdef uint8_t length
@@ -337,6 +344,7 @@ def simtel_pixel_timing_parse_list_type_2(
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
+                check_available(data, pos, 2)
                 timval[i_pix, i_type] = granularity * (<int16_t*> &data[pos])[0]
                 pos += 2
 
@@ -398,17 +406,20 @@ def parse_1208(
         if version > 2:
             pix_id, length = varint(data, offset=pos)
         else:
+            check_available(data, pos, 2)
             pix_id = (<int16_t*> &data[pos])[0]
             length = 2
 
         pos += length
 
+        check_available(data, pos, 4)
         n_pe = (<int32_t*> &data[pos])[0]
         pos += 4
 
         photoelectrons[pix_id] = n_pe
 
         for j in range(n_pe):
+            check_available(data, pos, 4)
             t = (<float*> &data[pos])[0]
             pixel_id[i_pe + j] = pix_id
             time[i_pe + j] = t
@@ -416,6 +427,7 @@ def parse_1208(
 
         if has_amplitudes:
             for j in range(n_pe):
+                check_available(data, pos, 4)
                 amplitude[i_pe + j] = (<float*> &data[pos])[0]
                 pos += 4
 
@@ -431,10 +443,12 @@ def parse_1208(
     if has_photons:
         photons = cnp.PyArray_ZEROS(1, pixel_shape, cnp.NPY_INT32, False)
 
+        check_available(data, pos, 4)
         nonempty = (<int32_t*> &data[pos])[0]
         pos += 4
 
         for i in range(nonempty):
+            check_available(data, pos, 6)
             pix_id = (<int16_t*> &data[pos])[0]
             pos += 2
 
@@ -475,6 +489,7 @@ cpdef simtel_pixel_timing_parse_list_type_1(
     for i in range(pixel_list_length):
         i_pix = pixel_list[i]
         for i_type in range(n_types):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &(data[pos])
             timval[i_pix, i_type] = granularity * short_ptr[0]
             pos += 2
-- 
2.43.0


From f6fea88e1ac76933417c6f9b2c581fa76a8f7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 19/29] fix: raise EOFError for truncated strings

---
 src/eventio/tools.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/eventio/tools.py b/src/eventio/tools.py
index 63a68ba..ca11a0c 100644
--- a/src/eventio/tools.py
+++ b/src/eventio/tools.py
@@ -3,6 +3,17 @@ import numpy as np
 from .var_int import get_length_of_varint, parse_varint
 
 
+def _read_exactly(f, length):
+    '''Read ``length`` bytes from ``f``, raise EOFError if there are less'''
+    if length < 0:
+        raise ValueError('Length cannot be negative, got: {}'.format(length))
+
+    data = f.read(length)
+    if len(data) < length:
+        raise EOFError('File seems to be truncated')
+    return data
+
+
 def read_short(f):
     ''' Read a signed 2 byte integer from `f`'''
     return struct.unpack('<h', f.read(2))[0]
@@ -47,7 +58,7 @@ def read_string(f):
     of the string and the string itself.
     '''
     length = read_short(f)
-    return f.read(length)
+    return _read_exactly(f, length)
 
 
 def read_var_string(f):
@@ -56,7 +67,7 @@ def read_var_string(f):
     the variable length integer instead of a short.
     '''
     length = read_unsigned_varint(f)
-    return f.read(length)
+    return _read_exactly(f, length)
 
 
 def read_from(f, fmt):
-- 
2.43.0


From fd43212ee7ee3050ae749059a2bfe3ead0d4f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 20/29] fix: do not assign observation level particles to later
 showers

---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 8e56376..6bea3bf 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -283,6 +283,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # particles come after the shower they belong to
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From 098424e74ebe6703b0bc196dbee891b079948b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 21/29] fix: handle exact and too small sizes in
 eventio_cut_file

Invalid sizes like 10T or 2.5M were treated as a number of bytes.
---
 src/eventio/scripts/cut_eventio_file.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..5c0a9a5 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'(\d+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
@@ -55,14 +55,17 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
                 break
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
-    print('Last object is of type {}'.format(last_o.header.type))
+    if last_o is None:
+        print('Not even the first object fits into the given size')
+    else:
+        print('Last object is of type {}'.format(last_o.header.type))
 
     if args.outputfile.endswith('.gz'):
         open_file = gzip.open
-- 
2.43.0


From a4b809c0db58333963b8a1f7faa759342f744fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 22/29] fix: print the correct number of objects not shown in
 eventio_print_structure

---
 src/eventio/scripts/print_structure.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index d9ca5f0..119c222 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -18,6 +18,17 @@ parser.add_argument(
 )
 
 
+def print_not_shown(last, n_same, max_repeats, level):
+    '''Print how many objects of a series of objects of the same type were not shown'''
+    # n_same does not include the first object of the series
+    n_not_shown = n_same + 1 - max_repeats
+    if last is not None and n_not_shown > 0:
+        print(
+            '    ' * level,
+            'And {} objects more of the same type'.format(n_not_shown)
+        )
+
+
 def print_structure():
     args = parser.parse_args()
 
@@ -34,21 +45,18 @@ def print_structure():
                     n_same += 1
                     last_level = level
                 else:
+                    print_not_shown(last, n_same, args.max_repeats, last_level)
                     last = o.__class__
-                    if n_same > args.max_repeats:
-                        print(
-                            '    ' * last_level,
-                            'And {} objects more of the same type'.format(
-                                n_same - args.max_repeats
-                            )
-                        )
                     n_same = 0
                     last_level = level
 
                 if n_same < args.max_repeats:
                     print('    ' * level, conv(o))
         except EOFError as e:
+            print_not_shown(last, n_same, args.max_repeats, last_level)
             print(e)
+        else:
+            print_not_shown(last, n_same, args.max_repeats, last_level)
 
 
 def main():
-- 
2.43.0


From 1f507ff98e88c2d6b917fb4a2dd2f15492613d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 23/29] fix: do not fail in eventio_print_simtel_history if
 only the history is in the file

---
 src/eventio/scripts/print_simtel_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index d7831e9..3ff0e57 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -17,7 +17,7 @@ def print_history():
                 t, line = subo.parse()
                 t = datetime.fromtimestamp(t)
                 print(f'{t:%Y-%m-%dT%H:%M:%S}', line.decode('utf-8').strip())
-            o = next(f)
+            o = next(f, None)
 
 
 def main():
-- 
2.43.0


From 09e7261a0c44aa677670549b5c7d8339f202ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:32 +0000
Subject: [PATCH 24/29] fix: padding of histogram titles with non-ascii
 characters

---
 src/eventio/histograms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index f86f50a..5a8e7ef 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,10 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            # padding depends on the number of bytes, not of characters
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
-- 
2.43.0


From e5e7106fd4350e5ffc607d10994d493ab1bc89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 25/29] fix: keep the previous event if the file is truncated
 inside of the next one

---
 src/eventio/simtel/simtelfile.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 6bea3bf..5e58ccf 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -287,15 +287,14 @@ class SimTelFile:
             self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
+            # parse first, the previous event must survive if the file is truncated here
+            array_event = parse_array_event(o, self.allowed_telescopes)
             # assume that array event without shower available are unpacked calibration events
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
-            self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -332,6 +331,8 @@ class SimTelFile:
 
         elif isinstance(o, CalibrationEvent):
             array_event = next(o)
+            # parse first, the previous event must survive if the file is truncated here
+            parsed_event = parse_array_event(array_event, self.allowed_telescopes)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
             event = self.current_event
@@ -340,9 +341,7 @@ class SimTelFile:
                 "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(parsed_event)
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From d17de03c419a01066be2151560befc15b288d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 26/29] fix: read gzip files whose name starts with a dash

zcat got the name as an option, printed an error message and the file
appeared to be empty.
---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index d783b6a..6375e0a 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -80,7 +80,7 @@ class EventIOFile:
                 try:
                     log.info('Trying to read using zcat')
                     self.read_process = sp.Popen(
-                        ['gzip', '-cd', path], stdout=sp.PIPE, stderr=sp.PIPE
+                        ['gzip', '-cd', '--', path], stdout=sp.PIPE, stderr=sp.PIPE
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-- 
2.43.0


From 3001b2887c3765657ad72a93ead04e57c8f1787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 27/29] fix: read zstd files that consist of several frames

Reading stopped at the end of the frame, an object which extends into the
next frame looked truncated.
---
 src/eventio/base.py       | 4 +++-
 src/eventio/file_types.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 6375e0a..915ea3c 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -99,7 +99,9 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(open(path, 'rb'), read_size=1024**2)
+            self._filehandle = zstd.ZstdDecompressor().stream_reader(
+                open(path, 'rb'), read_size=1024**2, read_across_frames=True,
+            )
             self.zstd = True
 
         else:
diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index 78e3e44..b57a295 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -48,7 +48,7 @@ def is_eventio(path):
             raise IOError('You need the `zstandard` module to read zstd files')
         with open(path, 'rb') as f:
             cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f) as stream:
+            with cctx.stream_reader(f, read_across_frames=True) as stream:
                 marker_bytes = stream.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
-- 
2.43.0


From 8df3d348c92dddd77ed34f47c64fa60f56c276aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 28/29] fix: yield_n_subobjects delivers nothing if no objects
 are asked for

---
 src/eventio/search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..216f9ee 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -81,6 +81,9 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
+    if n < 1:
+        return
+
     for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
         if i >= n:
             yield obj
-- 
2.43.0


From 04952abe81fd488e6cad8c08dc209e624bcfe0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 29/29] fix: cutting a file into itself no longer destroys it

---
 src/eventio/scripts/cut_eventio_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 5c0a9a5..f3aac93 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -72,10 +72,12 @@ def main():
     else:
         open_file = open
 
-    with open_file(args.outputfile, 'wb') as of:
+    # the output may replace the input, so read before it is opened for writing
+    with EventIOFile(args.inputfile) as f:
+        data = f.read(bytes_to_read)
 
-        with EventIOFile(args.inputfile) as f:
-            of.write(f.read(bytes_to_read))
+    with open_file(args.outputfile, 'wb') as of:
+        of.write(data)
 
 
 if __name__ == '__main__':
-- 
2.43.0

