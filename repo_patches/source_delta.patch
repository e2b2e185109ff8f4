From 0659c43bbdba11147ef3df173bd307bd8f6bed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:09 +0000
Subject: [PATCH 01/52] fix: DecompressMemMapReader.seek drops content buffered
 while parsing the header

Rewinding after the header was parsed left the buffered beginning of the object
in place, so the next read prepended it to the header it parsed again.
---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..0b4b101 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -206,6 +206,8 @@ class DecompressMemMapReader(LazyMixin):
 
         self._zip = zlib.decompressobj()
         self._br = self._cws = self._cwe = self._cbr = 0
+        self._buf = None
+        self._buflen = 0
         if self._phi:
             self._phi = False
             del(self._s)        # trigger header parsing on first access
-- 
2.43.0


From 52b36910edfa27aca0d3d3b70efcf0a87b129db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 02/52] fix: DecompressMemMapReader.read returns what was asked
 for unless the stream ends

If a window of compressed data yielded no output at all, read returned an empty
string although the end was not reached. When buffered data was combined with
decompressed data, the buffered part was subtracted from the amount still missing,
so too little or everything was read.
---
 gitdb/stream.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 0b4b101..2d3c297 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -245,6 +245,23 @@ class DecompressMemMapReader(LazyMixin):
             # END handle buffer len
         # END handle buffer
 
+        # it can happen, depending on the compression, that we get less bytes
+        # than ordered, or none at all, as zlib needs the next portion of the data as well.
+        # Continue until we have them all, or until there is no more data
+        chunks = [dat]
+        while size > 0 and not self._zip.eof:
+            dcompdat = self._decompress_window(size)
+            chunks.append(dcompdat)
+            size -= len(dcompdat)
+            if not dcompdat and self._cws == self._cwe:
+                break
+            # END handle end of input
+        # END while there are bytes missing
+        return b''.join(chunks)
+
+    def _decompress_window(self, size):
+        """Move our window into the memory map forward and decompress it
+        :return: up to size decompressed bytes, possibly less, or none at all"""
         # decompress some data
         # Abstract: zlib needs to operate on chunks of our memory map ( which may
         # be large ), as it will otherwise and always fill in the 'unconsumed_tail'
@@ -305,19 +322,6 @@ class DecompressMemMapReader(LazyMixin):
         self._cbr += len(indata) - unused_datalen
         self._br += len(dcompdat)
 
-        if dat:
-            dcompdat = dat + dcompdat
-        # END prepend our cached data
-
-        # it can happen, depending on the compression, that we get less bytes
-        # than ordered as it needs the final portion of the data as well.
-        # Recursively resolve that.
-        # Note: dcompdat can be empty even though we still appear to have bytes
-        # to read, if we are called by compressed_bytes_read - it manipulates
-        # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
-        # END handle special case
         return dcompdat
 
 
-- 
2.43.0


From 5bdc070d245d90de546c79f3fe754a95c85da929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 03/52] fix: compressed_bytes_read terminates for empty objects

It looped forever as read() does not advance the stream of an object of size 0,
hence walking a pack with an empty object never ended.
---
 gitdb/stream.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 2d3c297..a3e7669 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -181,9 +181,12 @@ class DecompressMemMapReader(LazyMixin):
                     self.read(mmap.PAGESIZE)
                 # END scrub-loop custom zlib
             else:
-                # pass in additional pages, until we have unused data
-                while not self._zip.unused_data and self._cbr != len(self._m):
-                    self.read(mmap.PAGESIZE)
+                # pass in additional pages, until the compressed stream ended
+                # NOTE: read() would not do anything for empty objects
+                while not self._zip.eof:
+                    if not self._decompress_window(mmap.PAGESIZE) and self._cws == self._cwe:
+                        break
+                    # END handle end of input
                 # END scrub-loop default zlib
             # END handle stream scrubbing
 
-- 
2.43.0


From 2332ded196a263978fd3c6c30af044f6a2f68ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 04/52] fix: malformed deltas are rejected

A copy from outside of the source which was the last instruction, a source size
other than the size of the base, and a result of another size than stated were
accepted silently, yielding wrong content.
---
 gitdb/fun.py    |  2 +-
 gitdb/stream.py | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..15d6b2a 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -664,7 +664,7 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
             rbound = cp_off + cp_size
             if (rbound < cp_size or
                     rbound > src_buf_size):
-                break
+                raise ValueError("delta copies from outside of its source")
             write(src_buf[cp_off:cp_off + cp_size])
         elif c:
             write(db[i:i + c])
diff --git a/gitdb/stream.py b/gitdb/stream.py
index a3e7669..06dff61 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -426,7 +426,15 @@ class DeltaApplyReader(LazyMixin):
         # END for each delta stream
 
         # sanity check - the first delta to apply should have the same source
-        # size as our actual base stream
+        # size as our actual base stream, and each other one the size of the result
+        # of the delta applied before it
+        base_size = self._bstream.size
+        for _, _, src_size, target_size in reversed(buffer_info_list):
+            if src_size != base_size:
+                raise ValueError("delta expects a source of %i bytes, got %i" % (src_size, base_size))
+            # END verify size
+            base_size = target_size
+        # END for each delta
         base_size = self._bstream.size
         target_size = max_target_size
 
@@ -468,6 +476,9 @@ class DeltaApplyReader(LazyMixin):
                 c_apply_delta(bbuf, ddata, tbuf)
             else:
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
+                if tbuf.tell() != target_size:
+                    raise ValueError("delta produced %i bytes, but states %i" % (tbuf.tell(), target_size))
+                # END verify size
             #######################################################################
 
             # finally, swap out source and target buffers. The target is now the
-- 
2.43.0


From e6cbfb708c763591205c329087f88fd5c0d29d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 05/52] fix: resolve offset deltas which are the base of
 reference deltas

The relative offset of the base was used as an absolute one.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..31a7042 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -889,7 +889,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From 8bf9de213eabdffd1645196b5b48ed6942f048bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 06/52] fix: abbreviated ids matching several objects of one
 pack are ambiguous

The neighbour was compared with the candidate instead of the abbreviation, so
ambiguity within a pack was never detected.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 31a7042..206db2d 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -484,7 +484,7 @@ class PackIndexFile(LazyMixin):
                 next_sha = None
                 if lo + 1 < self.size():
                     next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
+                if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
             # END if we have a match
-- 
2.43.0


From 5fd98f56c0620cbab1638bbeb96384746620a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 07/52] fix: PackIndexFile.offsets resolves 64 bit offsets

It returned the indices into the 64 bit table instead of the offsets, thus objects
beyond 2 GiB could not be verified.
---
 gitdb/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 206db2d..d361a2e 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -409,6 +409,9 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
+            # entries with the high-bit set are indices into the 64 bit offset table
+            if self._pack_64_offset < len(self._cursor.map()) - 40:
+                return tuple(self.offset(index) for index in range(self.size()))
             return a
         else:
             return tuple(self.offset(index) for index in range(self.size()))
-- 
2.43.0


From cac3bf65c40b3b01e91122c65907c1f9298a1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 08/52] fix: FDStream.write reports incomplete writes

An object copied directly into a loose object database was truncated silently if
the operating system wrote less than it was given, as it happens on a full disk.
---
 gitdb/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 06dff61..6fbc79c 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -709,8 +709,9 @@ class FDStream:
         self._pos = 0
 
     def write(self, data):
+        if os.write(self._fd, data) != len(data):
+            raise OSError("Failed to write all bytes to filedescriptor")
         self._pos += len(data)
-        os.write(self._fd, data)
 
     def read(self, count=0):
         if count == 0:
-- 
2.43.0


From 6ea2d5df5853d213c8dda413cc400a9613f450ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 09/52] fix: FDStream.read without a size reads everything

It used an attribute which does not exist.
---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 6fbc79c..71fcf27 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -715,7 +715,7 @@ class FDStream:
 
     def read(self, count=0):
         if count == 0:
-            count = os.path.getsize(self._filepath)
+            count = os.fstat(self._fd).st_size
         # END handle read everything
 
         bytes = os.read(self._fd, count)
-- 
2.43.0


From 1dcfa585b87e412504de44aff8486aef2858bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 10/52] fix: FlexibleSha1Writer.write returns the length of the
 data like all writers

Storing an object with it as output stream failed.
---
 gitdb/stream.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 71fcf27..4263e25 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -620,6 +620,7 @@ class FlexibleSha1Writer(Sha1Writer):
     def write(self, data):
         Sha1Writer.write(self, data)
         self.writer(data)
+        return len(data)
 
 
 class ZippedStoreShaWriter(Sha1Writer):
-- 
2.43.0


From 3124d9272d0cf506dcb36d0b362b1b2ba19191db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 11/52] fix: 'sha in db' works

It used an attribute which does not exist.
---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From ffcc91022f2349faa45d9f5fb2978c28d85f2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 12/52] fix: stream_copy continues after a short read

Streams may return less than asked for before their end, the object was cut short
in that case.
---
 gitdb/fun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 15d6b2a..0e922c9 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -522,11 +522,11 @@ def stream_copy(read, write, size, chunk_size):
         # even less efficient
         # data_len = write(read(cs))
         # dbw += data_len
-        data = read(cs)
-        data_len = len(data)
-        dbw += data_len
+        # NOTE: a short read doesn't mean there is no more data
+        data = read(cs) if cs > 0 else b''
+        dbw += len(data)
         write(data)
-        if data_len < cs or dbw == size:
+        if not data or dbw == size:
             break
         # END check for stream end
     # END duplicate data
-- 
2.43.0


From 38fc68bb2fa6e3446eaa3925a7f7d17768e766bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 13/52] fix: write_object refuses streams which end early

A corrupt object, whose header states more bytes than there are, was stored instead.
---
 gitdb/fun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 0e922c9..6847848 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -501,7 +501,10 @@ def write_object(type, size, read, write, chunk_size=chunk_size):
 
     # WRITE HEADER: type SP size NULL
     tbw += write(loose_object_header(type, size))
-    tbw += stream_copy(read, write, size, chunk_size)
+    dbw = stream_copy(read, write, size, chunk_size)
+    if dbw != size:
+        raise OSError("Expected %i bytes from the stream, got %i" % (size, dbw))
+    tbw += dbw
 
     return tbw
 
-- 
2.43.0


From 38c04f8f0ac5555baae15eaecc540c1bfcf82b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 14/52] fix: PackEntity.create leaves nothing behind on error

Temporary files and their descriptors were leaked, and incomplete writes were not
noticed, which led to truncated packs.
---
 gitdb/pack.py | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index d361a2e..9665228 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1014,20 +1014,39 @@ class PackEntity(LazyMixin):
         :return: PackEntity instance initialized with the new pack
 
         **Note:** for more information on the other parameters see the write_pack method"""
-        pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
-        index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
-
-        pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
-        os.close(pack_fd)
-        os.close(index_fd)
-
-        fmt = "pack-%s.%s"
-        new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
-        os.rename(pack_path, new_pack_path)
-        os.rename(index_path, new_index_path)
+        tmp_paths = list()
+        try:
+            # NOTE: file objects take care of incomplete writes
+            pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
+            tmp_paths.append(pack_path)
+            with os.fdopen(pack_fd, 'wb') as pack_file:
+                index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
+                tmp_paths.append(index_path)
+                with os.fdopen(index_fd, 'wb') as index_file:
+                    pack_binsha, index_binsha = cls.write_pack(
+                        object_iter, pack_file.write, index_file.write, object_count, zlib_compression)
+                # END assure index is closed
+            # END assure pack is closed
+
+            fmt = "pack-%s.%s"
+            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            os.rename(pack_path, new_pack_path)
+            try:
+                os.rename(index_path, new_index_path)
+            except:
+                # a pack is of no use without its index
+                if not os.path.isfile(new_index_path):
+                    os.remove(new_pack_path)
+                raise
+            # END handle index
+        except:
+            for path in tmp_paths:
+                if os.path.isfile(path):
+                    os.remove(path)
+            # END for each temporary file
+            raise
+        # END assure nothing is left on error
 
         return cls(new_pack_path)
 
-- 
2.43.0


From 6bd3e277664c46bb7ee0c1a5c0a6babf26840a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 15/52] fix: is_loose_object works with python 3

---
 gitdb/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 6847848..997c340 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -395,7 +395,7 @@ def is_loose_object(m):
     """
     :return: True the file contained in memory map m appears to be a loose object.
         Only the first two bytes are needed"""
-    b0, b1 = map(ord, m[:2])
+    b0, b1 = byte_ord(m[0]), byte_ord(m[1])
     word = (b0 << 8) + b1
     return b0 == 0x78 and (word % 31) == 0
 
-- 
2.43.0


From 48e600dbef39468d78d8c18d6b14fbab7be2d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 16/52] fix: merging deltas works with python 3

connect_deltas and the delta chunk list still treated bytes as strings of characters.
---
 gitdb/fun.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 997c340..f0e3e54 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -23,7 +23,7 @@ from gitdb.typ import (
     str_tag_type,
 )
 
-from io import StringIO
+from io import BytesIO
 
 # INVARIANTS
 OFS_DELTA = 6
@@ -154,7 +154,7 @@ def _closest_index(dcl, absofs):
     lo = 0
     hi = len(dcl)
     while lo < hi:
-        mid = (lo + hi) / 2
+        mid = (lo + hi) // 2
         dc = dcl[mid]
         if dc.to > absofs:
             hi = mid
@@ -261,7 +261,7 @@ class DeltaChunkList(list):
             if dc.data is None:
                 if first_data_index is not None and i - 2 - first_data_index > 1:
                     # if first_data_index is not None:
-                    nd = StringIO()                     # new data
+                    nd = BytesIO()                      # new data
                     so = self[first_data_index].to      # start offset in target buffer
                     for x in range(first_data_index, i - 1):
                         xdc = self[x]
@@ -310,7 +310,7 @@ class DeltaChunkList(list):
 
         left = islice(self, 0, len(self) - 1)
         right = iter(self)
-        right.next()
+        next(right)
         # this is very pythonic - we might have just use index based access here,
         # but this could actually be faster
         for lft, rgt in zip(left, right):
@@ -559,30 +559,30 @@ def connect_deltas(dstreams):
         # interpret opcodes
         tbw = 0                     # amount of target bytes written
         while i < delta_buf_size:
-            c = ord(db[i])
+            c = db[i]
             i += 1
             if c & 0x80:
                 cp_off, cp_size = 0, 0
                 if (c & 0x01):
-                    cp_off = ord(db[i])
+                    cp_off = db[i]
                     i += 1
                 if (c & 0x02):
-                    cp_off |= (ord(db[i]) << 8)
+                    cp_off |= (db[i] << 8)
                     i += 1
                 if (c & 0x04):
-                    cp_off |= (ord(db[i]) << 16)
+                    cp_off |= (db[i] << 16)
                     i += 1
                 if (c & 0x08):
-                    cp_off |= (ord(db[i]) << 24)
+                    cp_off |= (db[i] << 24)
                     i += 1
                 if (c & 0x10):
-                    cp_size = ord(db[i])
+                    cp_size = db[i]
                     i += 1
                 if (c & 0x20):
-                    cp_size |= (ord(db[i]) << 8)
+                    cp_size |= (db[i] << 8)
                     i += 1
                 if (c & 0x40):
-                    cp_size |= (ord(db[i]) << 16)
+                    cp_size |= (db[i] << 16)
                     i += 1
 
                 if not cp_size:
-- 
2.43.0


From 480f3db5471317975a6044822f618681989d4bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 17/52] fix: BadObject can be printed if raised for an
 abbreviated name

---
 gitdb/exc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/exc.py b/gitdb/exc.py
index 752dafd..12c739a 100644
--- a/gitdb/exc.py
+++ b/gitdb/exc.py
@@ -30,7 +30,9 @@ class BadObject(ODBError):
     failed sha"""
 
     def __str__(self):
-        return "BadObject: %s" % to_hex_sha(self.args[0])
+        sha = self.args[0]
+        # abbreviated names are no shas
+        return "BadObject: %s" % (sha if isinstance(sha, str) else to_hex_sha(sha))
 
 
 class BadName(ODBError):
-- 
2.43.0


From 307d8928e0ce0853e386a0f7af844dbd25e7e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:44 +0000
Subject: [PATCH 18/52] fix: copying from one MemoryDB to another

A stream which is in object format already was compressed once more, the object
could not be read. Also return the type as bytes, as any other database does.
---
 gitdb/db/mem.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index d4772fd..a36a2a3 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -24,6 +24,8 @@ from gitdb.stream import (
     DecompressMemMapReader,
 )
 
+from gitdb.utils.encoding import force_bytes
+
 from io import BytesIO
 
 __all__ = ("MemoryDB", )
@@ -47,17 +49,23 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
-        zstream = ZippedStoreShaWriter()
-        self._db.set_ostream(zstream)
-
-        istream = self._db.store(istream)
-        zstream.close()     # close to flush
-        zstream.seek(0)
+        if istream.binsha is not None:
+            # the stream is in object format already, including compression
+            data = istream.read()
+        else:
+            zstream = ZippedStoreShaWriter()
+            self._db.set_ostream(zstream)
+
+            istream = self._db.store(istream)
+            zstream.close()     # close to flush
+            zstream.seek(0)
+            data = zstream.getvalue()
+        # END handle direct stream copies
 
         # don't provide a size, the stream is written in object format, hence the
         # header needs decompression
-        decomp_stream = DecompressMemMapReader(zstream.getvalue(), close_on_deletion=False)
-        self._cache[istream.binsha] = OStream(istream.binsha, istream.type, istream.size, decomp_stream)
+        decomp_stream = DecompressMemMapReader(data, close_on_deletion=False)
+        self._cache[istream.binsha] = OStream(istream.binsha, force_bytes(istream.type), istream.size, decomp_stream)
 
         return istream
 
-- 
2.43.0


From e205afa4f1c58084bbf575390011709297ab7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:44 +0000
Subject: [PATCH 19/52] fix: PackedDB ignores packs without an index

The pack is put into place before its index, all lookups failed in the meantime.
---
 gitdb/db/pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..054acdb 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -146,7 +146,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
-        pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
+        # a pack cannot be used (yet) without its index
+        pack_files = {path for path in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+                      if os.path.isfile(path[:-len("pack")] + "idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From 80ac26058938e005c7fafc0187391a911d416944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:44 +0000
Subject: [PATCH 20/52] fix: is_valid_stream returns False for objects with the
 wrong id

It raised an AssertionError instead.
---
 gitdb/pack.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 9665228..c532b23 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -848,7 +848,6 @@ class PackEntity(LazyMixin):
             # write a loose object, which is the basis for the sha
             write_object(stream.type, stream.size, stream.read, shawriter.write)
 
-            assert shawriter.sha(as_hex=False) == sha
             return shawriter.sha(as_hex=False) == sha
         # END handle crc/sha verification
         return True
-- 
2.43.0


From 269cd83f2c2b5035a2648167c5cff78691854d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:44 +0000
Subject: [PATCH 21/52] fix: FDCompressedSha1Writer closes its file even if
 flushing fails

---
 gitdb/stream.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 4263e25..c7c1902 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -690,10 +690,13 @@ class FDCompressedSha1Writer(Sha1Writer):
         return len(data)
 
     def close(self):
-        remainder = self.zip.flush()
-        if write(self.fd, remainder) != len(remainder):
-            raise self.exc
-        return close(self.fd)
+        try:
+            remainder = self.zip.flush()
+            if write(self.fd, remainder) != len(remainder):
+                raise self.exc
+        finally:
+            close(self.fd)
+        # END assure file is closed
 
     #} END stream interface
 
-- 
2.43.0


From c96b3e03324d0d873e9a08464e87c097c0bbb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 22/52] fix: LooseObjectDB.store removes its temporary file if
 the object can't be put into place

---
 gitdb/db/loose.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..dbed1b8 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -220,14 +220,19 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except:
                 remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
-- 
2.43.0


From 0db8d5914fd89a5469580b93e3bd1e57e9946832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 23/52] fix: LockedFD releases its lock if committing fails

If the lock file could not be put into place, it stayed behind and nobody was able to
lock the file anymore.
---
 gitdb/util.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..0675918 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -321,9 +321,7 @@ class LockedFD:
         lockmode = os.O_WRONLY | os.O_CREAT | os.O_EXCL | binary
         try:
             fd = os.open(self._lockfilepath(), lockmode, int("600", 8))
-            if not write:
-                os.close(fd)
-            else:
+            if write:
                 self._fd = fd
             # END handle file descriptor
         except OSError as e:
@@ -334,6 +332,7 @@ class LockedFD:
         if self._fd is None:
             # we could specify exclusive here, as we obtained the lock anyway
             try:
+                os.close(fd)
                 self._fd = os.open(self._filepath, os.O_RDONLY | binary)
             except:
                 # assure we release our lockfile
@@ -373,18 +372,24 @@ class LockedFD:
         if self._fd is None:
             return
 
-        os.close(self._fd)
-        self._fd = None
+        fd, self._fd = self._fd, None
 
         lockfile = self._lockfilepath()
         if self._write and successful:
-            # on windows, rename does not silently overwrite the existing one
-            if sys.platform == "win32":
-                if isfile(self._filepath):
-                    remove(self._filepath)
-                # END remove if exists
-            # END win32 special handling
-            os.rename(lockfile, self._filepath)
+            try:
+                os.close(fd)
+                # on windows, rename does not silently overwrite the existing one
+                if sys.platform == "win32":
+                    if isfile(self._filepath):
+                        remove(self._filepath)
+                    # END remove if exists
+                # END win32 special handling
+                os.rename(lockfile, self._filepath)
+            except:
+                # assure we release our lockfile
+                remove(lockfile)
+                raise
+            # END handle lockfile
 
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
@@ -392,7 +397,11 @@ class LockedFD:
             chmod(self._filepath, int("644", 8))
         else:
             # just delete the file so far, we failed
-            remove(lockfile)
+            try:
+                os.close(fd)
+            finally:
+                remove(lockfile)
+            # END assure we release our lockfile
         # END successful handling
 
 #} END utilities
-- 
2.43.0


From 5011e8822b4731d25cb17f518cdf7d2aa64a4f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 24/52] fix: objects crossing the bounds of a memory mapped
 window are not cut short

In packs larger than a gigabyte, objects which start in one window and end in another
one could not be read.
---
 gitdb/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 0675918..8d0d25b 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -19,7 +19,9 @@ from smmap import (
 
 # initialize our global memory manager instance
 # Use it to free cached (and unused) resources.
-mman = SlidingWindowMapManager()
+# The readers of packs rely on being able to see everything from the start of an object
+# to the end of the file, which is not the case if windows slide.
+mman = StaticWindowMapManager() if sys.maxsize > (1 << 32) else SlidingWindowMapManager()
 # END handle mman
 
 import hashlib
-- 
2.43.0


From ebfbd1fdafb78de8b328862932aadca6ea5fa980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 25/52] fix: cyclic delta chains are reported as error

Collecting their streams never ended.
---
 gitdb/pack.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index c532b23..4d280f7 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -612,6 +612,9 @@ class PackFile(LazyMixin):
             ostream = pack_object_at(c, offset, True)[1]
             out.append(ostream)
             if ostream.type_id == OFS_DELTA:
+                if ostream.delta_info == 0:
+                    raise ParseError("Delta at offset %i has itself as base" % offset)
+                # END handle invalid delta
                 offset = ostream.pack_offset - ostream.delta_info
             else:
                 # the only thing we can lookup are OFFSET deltas. Everything
@@ -876,6 +879,7 @@ class PackEntity(LazyMixin):
         # a REF delta, or a base object, as OFFSET deltas are resolved by the pack
         if streams[-1].type_id == REF_DELTA:
             stream = streams[-1]
+            offsets = {s.pack_offset for s in streams}
             while stream.type_id in delta_types:
                 if stream.type_id == REF_DELTA:
                     # smmap can return memory view objects, which can't be compared as buffers/bytes can ...
@@ -894,6 +898,10 @@ class PackEntity(LazyMixin):
                     stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
+                if stream.pack_offset in offsets:
+                    raise ParseError("Delta at offset %i has itself as base" % offset)
+                # END handle cyclic deltas
+                offsets.add(stream.pack_offset)
             # END resolve ref streams
         # END resolve streams
 
-- 
2.43.0


From e9d97d101b5f42ff48b945627ac9b068363704fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 26/52] fix: compressed_bytes_read doesn't subtract unused data
 twice

---
 gitdb/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index c7c1902..ecdd240 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -318,8 +318,11 @@ class DecompressMemMapReader(LazyMixin):
         # IT's CERTAINLY GOING TO BITE US IN THE FUTURE ... .
         if getattr(zlib, 'ZLIB_RUNTIME_VERSION', zlib.ZLIB_VERSION) in ('1.2.7', '1.2.5') and not sys.platform == 'darwin':
             unused_datalen = len(self._zip.unconsumed_tail)
+        elif self._zip.eof:
+            # NOTE: the unconsumed tail may contain the very same bytes
+            unused_datalen = len(self._zip.unused_data)
         else:
-            unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
+            unused_datalen = len(self._zip.unconsumed_tail)
         # # end handle very special case ...
 
         self._cbr += len(indata) - unused_datalen
-- 
2.43.0


From 1e052529f61e803a51936d62c2a4f6538016805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:45 +0000
Subject: [PATCH 27/52] fix: streams of a MemoryDB do not rewind one another

---
 gitdb/db/mem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index a36a2a3..70a5c06 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -79,9 +79,9 @@ class MemoryDB(ObjectDBR, ObjectDBW):
     def stream(self, sha):
         try:
             ostream = self._cache[sha]
-            # rewind stream for the next one to read
-            ostream.stream.seek(0)
-            return ostream
+            # each caller reads from an own stream, on the same data
+            stream = DecompressMemMapReader(ostream.stream.data(), close_on_deletion=False)
+            return OStream(ostream.binsha, ostream.type, ostream.size, stream)
         except KeyError as e:
             raise BadObject(sha) from e
         # END exception handling
-- 
2.43.0


From c122066692685569961e5e412cbda42408bc256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 28/52] fix: packs are named after their checksum, not after
 its python representation

---
 gitdb/pack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 4d280f7..ffb6ede 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -62,6 +62,7 @@ from struct import pack
 from binascii import crc32
 
 from gitdb.const import NULL_BYTE
+from gitdb.utils.encoding import force_text
 
 import tempfile
 import array
@@ -1036,8 +1037,9 @@ class PackEntity(LazyMixin):
             # END assure pack is closed
 
             fmt = "pack-%s.%s"
-            new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-            new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+            pack_hexsha = force_text(bin_to_hex(pack_binsha))
+            new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
             os.rename(pack_path, new_pack_path)
             try:
                 os.rename(index_path, new_index_path)
-- 
2.43.0


From 9fedc21ad6d6f77d49cad2732a5632b1de37acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 29/52] fix: packs are found if the database path contains
 wildcards

Characters like '[' in the path of the pack directory were taken for a pattern,
which made all packs invisible.
---
 gitdb/db/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 054acdb..06468ae 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -147,7 +147,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # a pack cannot be used (yet) without its index
-        pack_files = {path for path in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+        pack_files = {path for path in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
                       if os.path.isfile(path[:-len("pack")] + "idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
-- 
2.43.0


From e296796784690825bf610578368821dbe759e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:46 +0000
Subject: [PATCH 30/52] fix: removed loose objects are forgotten when the cache
 is updated

LooseObjectDB remembers the files it has seen, and reported them as present
for good even if they were pruned.
---
 gitdb/db/loose.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index dbed1b8..feda14c 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -5,6 +5,7 @@
 from contextlib import suppress
 
 from gitdb.db.base import (
+    CachingDB,
     FileDBBase,
     ObjectDBR,
     ObjectDBW
@@ -60,7 +61,7 @@ import time
 __all__ = ('LooseObjectDB', )
 
 
-class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
+class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
     """A database which operates on loose object files"""
 
@@ -271,3 +272,8 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
 
     def size(self):
         return len(tuple(self.sha_iter()))
+
+    def update_cache(self, force=False):
+        # files seen earlier might have been removed, new ones are seen without update
+        self._hexsha_to_file.clear()
+        return False
-- 
2.43.0


From f0cfe6fcf93f83754cdda50a50d7d8a18745e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:46 +0000
Subject: [PATCH 31/52] fix: ReferenceDB.update_cache reports changed
 alternates

Removing an alternate, or adding one without packs, was reported as no change.
---
 gitdb/db/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..ab64cbe 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -78,5 +78,6 @@ class ReferenceDB(CompoundDB):
 
     def update_cache(self, force=False):
         # re-read alternates and update databases
+        previous = list(self._dbs)
         self._update_dbs_from_ref_file()
-        return super().update_cache(force)
+        return super().update_cache(force) or self._dbs != previous
-- 
2.43.0


From f85b233a3ea3ed4b94ca754d265d2816e36c86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:16 +0000
Subject: [PATCH 32/52] fix: GitDB.update_cache finds packs and alternates of
 initially bare databases

Sub-databases were only looked for once, hence an alternates file or a pack
directory created later was never used.
---
 gitdb/db/git.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index a1ed142..55e078d 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -71,6 +71,20 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
             super()._set_cache_(attr)
         # END handle attrs
 
+    def update_cache(self, force=False):
+        # packs or alternates may exist now which didn't when we were initialized
+        added = False
+        have = [type(db) for db in self._dbs]
+        for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
+                               (self.alternates_dir, self.ReferenceDBCls)):
+            path = self.db_path(subpath)
+            if dbcls not in have and os.path.exists(path):
+                self._dbs.append(dbcls(path))
+                added = True
+            # END add new sub-database
+        # END for each db type which may appear later
+        return super().update_cache(force) or added
+
     #{ ObjectDBW interface
 
     def store(self, istream):
-- 
2.43.0


From 9d2d3dde324a124cca4c3cd216a6bec715e92024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:02 +0000
Subject: [PATCH 33/52] fix: relative alternates are relative to the objects
 directory

They were taken relative to the current working directory of the process,
unlike git does it, see gitrepository-layout(5).
---
 gitdb/db/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index ab64cbe..4b5dd30 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -3,6 +3,7 @@
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
 import codecs
+import os
 from gitdb.db.base import (
     CompoundDB,
 )
@@ -43,7 +44,9 @@ class ReferenceDB(CompoundDB):
         ref_paths = list()
         try:
             with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                ref_paths = [l.strip() for l in f]
+                # relative paths are relative to the objects directory, as in git
+                root = os.path.dirname(os.path.dirname(self._ref_file))
+                ref_paths = [os.path.join(root, l.strip()) for l in f if l.strip()]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From 2465ced48050e46423613539a281202617b0d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:42 +0000
Subject: [PATCH 34/52] fix: indices which are too small for their amount of
 objects are rejected

With a damaged fanout table, iterating a pack index could yield up to 2^32
entries, most of them empty.
---
 gitdb/pack.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index ffb6ede..18a33ef 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -358,7 +358,15 @@ class PackIndexFile(LazyMixin):
 
     def _initialize(self):
         """initialize base data"""
-        self._fanout_table = self._read_fanout((self._version == 2) * 8)
+        fanout_table = self._read_fanout((self._version == 2) * 8)
+
+        # the amount of objects must fit into the file, it might be damaged
+        size = fanout_table[255]
+        expected_size = (self._version == 2 and 8 + 1024 + size * 28 or 1024 + size * 24) + 2 * 20
+        if self._cursor.file_size() < expected_size:
+            raise ParseError("Index file at %s is too small for %i objects" % (self._indexpath, size))
+        # END verify size
+        self._fanout_table = fanout_table
 
         if self._version == 2:
             self._crc_list_offset = self._sha_list_offset + self.size() * 20
-- 
2.43.0


From 771242ff96a17068e26aad7ce9a7796cbe1afc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 35/52] fix: verifying an object ends if its index has an
 absurd offset

With a damaged 64 bit offset table, the checksum was computed in a loop over
up to 2^63 bytes which don't exist.
---
 gitdb/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 18a33ef..06cd1b3 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -842,6 +842,9 @@ class PackEntity(LazyMixin):
             # Read it in chunks, without copying the data
             crc_update = zlib.crc32
             pack_data = self._pack.data()
+            if next_offset > len(pack_data):
+                return False        # the index is damaged
+            # END handle invalid offset
             cur_pos = offset
             this_crc_value = 0
             while cur_pos < next_offset:
-- 
2.43.0


From 63857507956de1b93e84a6f5f2089a2f1d2a4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:44 +0000
Subject: [PATCH 36/52] fix: loose_object_header_info doesn't copy the whole
 object

All of the compressed data ended up in the unconsumed_tail of the
decompressor just to get the header.
---
 gitdb/fun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index f0e3e54..b443e35 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -406,7 +406,8 @@ def loose_object_header_info(m):
         object as well as its uncompressed size in bytes.
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
-    hdr = decompressobj().decompress(m, decompress_size)
+    # zlib copies all of its input it doesn't need into the unconsumed_tail
+    hdr = decompressobj().decompress(m[:decompress_size], decompress_size)
     type_name, size = hdr[:hdr.find(NULL_BYTE)].split(BYTE_SPACE)
 
     return type_name, int(size)
-- 
2.43.0


From 5d65cce75f2ad724c82dba95cf94bb682acbdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:42 +0000
Subject: [PATCH 37/52] fix: FDCompressedSha1Writer doesn't keep the traceback
 of its last failure

---
 gitdb/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index ecdd240..e423c4a 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -678,6 +678,11 @@ class FDCompressedSha1Writer(Sha1Writer):
         self.fd = fd
         self.zip = zlib.compressobj(zlib.Z_BEST_SPEED)
 
+    def _new_exc(self):
+        """:return: new instance of our exception - raising the shared one would keep its
+            traceback, and with it everything the frames refer to"""
+        return type(self.exc)(*self.exc.args)
+
     #{ Stream Interface
 
     def write(self, data):
@@ -688,7 +693,7 @@ class FDCompressedSha1Writer(Sha1Writer):
         bytes_written = write(self.fd, cdata)
 
         if bytes_written != len(cdata):
-            raise self.exc
+            raise self._new_exc()
 
         return len(data)
 
@@ -696,7 +701,7 @@ class FDCompressedSha1Writer(Sha1Writer):
         try:
             remainder = self.zip.flush()
             if write(self.fd, remainder) != len(remainder):
-                raise self.exc
+                raise self._new_exc()
         finally:
             close(self.fd)
         # END assure file is closed
-- 
2.43.0


From 1171f0c756b351a7c919a0ab3ce01c2c7568c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:56 +0000
Subject: [PATCH 38/52] fix: streams of loose objects with a negative size in
 their header yielded data

---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index e423c4a..d5d4702 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -223,7 +223,7 @@ class DecompressMemMapReader(LazyMixin):
             size = min(size, self._s - self._br)
         # END clamp size
 
-        if size == 0:
+        if size < 1:        # the size in a damaged header may be negative
             return b''
         # END handle depletion
 
-- 
2.43.0


From 03621ef0641b398267d3c04b0370f812f6fff10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 39/52] fix: a pack that appeared during the first cache update
 was dropped

---
 gitdb/db/pack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 06468ae..c34efbf 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -142,6 +142,10 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         if not force and stat.st_mtime <= self._st_mtime:
             return False
         # END abort early on no change
+
+        # NOTE: if the entities are loaded just now, this updates the cache as well. Thus it must
+        # happen before we remember the time and list the files, or we use an outdated listing
+        our_pack_files = {item[1].pack().path() for item in self._entities}
         self._st_mtime = stat.st_mtime
 
         # packs are supposed to be prefixed with pack- by git-convention
@@ -149,7 +153,6 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # a pack cannot be used (yet) without its index
         pack_files = {path for path in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
                       if os.path.isfile(path[:-len("pack")] + "idx")}
-        our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
         for pack_file in (pack_files - our_pack_files):
-- 
2.43.0


From 17868e257dab5656806b795ecb54177666756f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 40/52] fix: file_contents_ro failed on empty files if memory
 maps were allowed

---
 gitdb/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 8d0d25b..06c4733 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -180,7 +180,8 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
                 # python 2.4 issue, 0 wants to be the actual size
                 return mmap.mmap(fd, os.fstat(fd).st_size, access=mmap.ACCESS_READ)
             # END handle python 2.4
-    except OSError:
+    except (OSError, ValueError):
+        # empty files cannot be mapped, which is a ValueError
         pass
     # END exception handling
 
-- 
2.43.0


From 976827d34183753522532fade09e5277aceb444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 41/52] fix: file_contents_ro without memory map cut off files
 of more than 2 GiB

---
 gitdb/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 06c4733..609c384 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -185,8 +185,9 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
         pass
     # END exception handling
 
-    # read manually
-    contents = os.read(fd, os.fstat(fd).st_size)
+    # read manually - a single read may return less than we ask for
+    with open(fd, 'rb', closefd=False) as fp:
+        contents = fp.read()
     if stream:
         return _RandomAccessBytesIO(contents)
     return contents
-- 
2.43.0


From 15d35e0b4e6d33c54b329175fa96c516c823e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 42/52] fix: InvalidOInfo and InvalidOStream could not be
 instantiated

---
 gitdb/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/base.py b/gitdb/base.py
index 9a23a4f..aa95e24 100644
--- a/gitdb/base.py
+++ b/gitdb/base.py
@@ -291,7 +291,7 @@ class InvalidOInfo(tuple):
         return tuple.__new__(cls, (sha, exc))
 
     def __init__(self, sha, exc):
-        tuple.__init__(self, (sha, exc))
+        tuple.__init__(self)
 
     @property
     def binsha(self):
-- 
2.43.0


From d4a6000f2c4a0885be47c588ed8e7342cca737d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 43/52] fix: objects in packs could be missed by one thread
 while another one sorted the list of packs

---
 gitdb/db/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index c34efbf..f29534c 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -55,7 +55,8 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # END handle entities initialization
 
     def _sort_entities(self):
-        self._entities.sort(key=lambda l: l[0], reverse=True)
+        # NOTE: sorting in place empties the list meanwhile, which other threads would see
+        self._entities = sorted(self._entities, key=lambda l: l[0], reverse=True)
 
     def _pack_info(self, sha):
         """:return: tuple(entity, index) for an item at the given sha
-- 
2.43.0


From 50408779e31b540f6e5bb010bfd75aa3b524a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 44/52] fix: storing an object failed if it existed already in
 a file owned by another user

---
 gitdb/db/loose.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index feda14c..12d17ee 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -225,7 +225,8 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
                 os.makedirs(obj_dir, exist_ok=True)
                 # END handle destination directory
                 # rename onto existing doesn't work on NTFS
-                if isfile(obj_path):
+                existed = isfile(obj_path)
+                if existed:
                     remove(tmp_path)
                 else:
                     rename(tmp_path, obj_path)
@@ -245,6 +246,9 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
                     # but needs to be rwrr
                     chmod(obj_path, self.new_objects_mode)
                     break
+                if existed:
+                    # it might belong to another user, who took care of it already
+                    break
                 time.sleep(backoff_ms / 1000.0)
             else:
                 raise PermissionError(
-- 
2.43.0


From d9c11a96c2916b0bead41857ed38fc7177a1ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 45/52] fix: packs created with PackEntity.create were readable
 for their creator only

---
 gitdb/pack.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 06cd1b3..20f3654 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -1047,6 +1047,12 @@ class PackEntity(LazyMixin):
                 # END assure index is closed
             # END assure pack is closed
 
+            # they started out as rw------- temporary files, but need to be readable for all.
+            # On windows we need to keep them writable, otherwise they cannot be removed either
+            for path in tmp_paths:
+                os.chmod(path, int("644" if os.name == 'nt' else "444", 8))
+            # END for each file
+
             fmt = "pack-%s.%s"
             pack_hexsha = force_text(bin_to_hex(pack_binsha))
             new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
-- 
2.43.0


From b6db856211258a6e11b00e5cbc86d2313b021729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 46/52] fix: updating a database failed if a pack directory had
 disappeared

---
 gitdb/db/pack.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index f29534c..9d1bb9e 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -139,7 +139,15 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
             does not appear to have changed according to its modification timestamp.
         :return: True if the packs have been updated so there is new information,
             False if there was no change to the pack database"""
-        stat = os.stat(self.root_path())
+        try:
+            stat = os.stat(self.root_path())
+        except FileNotFoundError:
+            # there are no packs (anymore), but the directory might come back
+            had_entities = bool(self._entities)
+            self._entities = list()
+            self._st_mtime = 0
+            return had_entities
+        # END handle missing directory
         if not force and stat.st_mtime <= self._st_mtime:
             return False
         # END abort early on no change
-- 
2.43.0


From 49910a58ab1f37a7a997bb59f47619cbd3155029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 47/52] fix: alternates whose paths aren't UTF-8 made the whole
 database unusable

---
 gitdb/db/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 4b5dd30..8db14b4 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -2,7 +2,6 @@
 #
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
-import codecs
 import os
 from gitdb.db.base import (
     CompoundDB,
@@ -43,10 +42,11 @@ class ReferenceDB(CompoundDB):
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
         try:
-            with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
+            # NOTE: paths are arbitrary bytes, lines are separated by newlines only
+            with open(self._ref_file, 'rb') as f:
                 # relative paths are relative to the objects directory, as in git
                 root = os.path.dirname(os.path.dirname(self._ref_file))
-                ref_paths = [os.path.join(root, l.strip()) for l in f if l.strip()]
+                ref_paths = [os.path.join(root, os.fsdecode(l.strip())) for l in f if l.strip()]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From 363ca986fe96fc7b7eeb4d2e78420d22c409c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 48/52] fix: files which are no loose objects were enumerated,
 or made the enumeration fail

---
 gitdb/db/loose.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 12d17ee..c9e764a 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -54,12 +54,16 @@ from gitdb.utils.encoding import force_bytes
 
 import tempfile
 import os
+import re
 import sys
 import time
 
 
 __all__ = ('LooseObjectDB', )
 
+# concatenated names of directory and file of an object
+re_object_name = re.compile(r"[0-9a-f]{40}\Z")
+
 
 class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
@@ -263,12 +267,16 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
     def sha_iter(self):
         # find all files which look like an object, extract sha from there
         for root, dirs, files in os.walk(self.root_path()):
-            root_base = basename(root)
-            if len(root_base) != 2:
+            if root == self.root_path():
+                # objects are exactly one level below
+                dirs[:] = [d for d in dirs if len(d) == 2]
                 continue
+            # END handle toplevel
+            del dirs[:]
 
+            root_base = basename(root)
             for f in files:
-                if len(f) != 38:
+                if not re_object_name.match(root_base + f):
                     continue
                 yield hex_to_bin(root_base + f)
             # END for each file
-- 
2.43.0


From 50bd1fc1c813d940915ecbd80297cdade1ec4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:51 +0000
Subject: [PATCH 49/52] fix: mapped packs were unmapped while streams or infos
 of them were still in use

smmap unmaps the least recently used region nobody uses if more is to be
mapped than its limit, and fails with a BufferError if there are views of it.
---
 gitdb/pack.py   | 7 +++++--
 gitdb/stream.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 20f3654..7517508 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -106,7 +106,8 @@ def pack_object_at(cursor, offset, as_stream):
     # REF DELTA
     elif type_id == REF_DELTA:
         total_rela_offset = data_rela_offset + 20
-        delta_info = data[data_rela_offset:total_rela_offset]
+        # NOTE: copy it, as a view would keep the memory map from being closed
+        delta_info = bytes(data[data_rela_offset:total_rela_offset])
     # BASE OBJECT
     else:
         # assume its a base object
@@ -115,6 +116,8 @@ def pack_object_at(cursor, offset, as_stream):
     abs_data_offset = offset + total_rela_offset
     if as_stream:
         stream = DecompressMemMapReader(data[total_rela_offset:], False, uncomp_size)
+        # the region must not be unmapped by our memory manager while the stream reads from it
+        stream._cursor = cursor
         if delta_info is None:
             return abs_data_offset, OPackStream(offset, type_id, uncomp_size, stream)
         else:
@@ -597,7 +600,7 @@ class PackFile(LazyMixin):
 
     def checksum(self):
         """:return: 20 byte sha1 hash on all object sha's contained in this file"""
-        return self._cursor.use_region(self._cursor.file_size() - 20).buffer()[:]
+        return bytes(self._cursor.use_region(self._cursor.file_size() - 20).buffer())
 
     def path(self):
         """:return: path to the packfile"""
diff --git a/gitdb/stream.py b/gitdb/stream.py
index d5d4702..28c4134 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -62,7 +62,7 @@ class DecompressMemMapReader(LazyMixin):
         to better support streamed reading - it would only need to keep the mmap
         and decompress it into chunks, that's all ... """
     __slots__ = ('_m', '_zip', '_buf', '_buflen', '_br', '_cws', '_cwe', '_s', '_close',
-                 '_cbr', '_phi')
+                 '_cbr', '_phi', '_cursor')
 
     max_read_size = 512 * 1024        # currently unused
 
-- 
2.43.0


From 6651f95e313fdc360ff747e011290b27acb6262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:26 +0000
Subject: [PATCH 50/52] fix: unknown attributes of streams raised
 AssertionErrors instead of AttributeErrors

---
 gitdb/stream.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 28c4134..58b012e 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -83,7 +83,10 @@ class DecompressMemMapReader(LazyMixin):
         self._close = close_on_deletion         # close the memmap on deletion ?
 
     def _set_cache_(self, attr):
-        assert attr == '_s'
+        if attr != '_s':
+            return super()._set_cache_(attr)
+        # END ignore unknown attributes
+
         # only happens for size, which is a marker to indicate we still
         # have to parse the header from the stream
         self._parse_header_info()
@@ -380,6 +383,10 @@ class DeltaApplyReader(LazyMixin):
         self._br = 0
 
     def _set_cache_too_slow_without_c(self, attr):
+        if attr not in ('_size', '_mm_target'):
+            return super()._set_cache_(attr)
+        # END ignore unknown attributes
+
         # the direct algorithm is fastest and most direct if there is only one
         # delta. Also, the extra overhead might not be worth it for items smaller
         # than X - definitely the case in python, every function call costs
@@ -415,6 +422,10 @@ class DeltaApplyReader(LazyMixin):
 
     def _set_cache_brute_(self, attr):
         """If we are here, we apply the actual deltas"""
+        if attr not in ('_size', '_mm_target'):
+            return super()._set_cache_(attr)
+        # END ignore unknown attributes
+
         # TODO: There should be a special case if there is only one stream
         # Then the default-git algorithm should perform a tad faster, as the
         # delta is not peaked into, causing less overhead.
-- 
2.43.0


From 363bfab95388382cf642bb01449a324038550da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:37 +0000
Subject: [PATCH 51/52] fix: an index which replaced one of another size at the
 same path could not be opened

---
 gitdb/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 7517508..930a86c 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -366,7 +366,8 @@ class PackIndexFile(LazyMixin):
         # the amount of objects must fit into the file, it might be damaged
         size = fanout_table[255]
         expected_size = (self._version == 2 and 8 + 1024 + size * 28 or 1024 + size * 24) + 2 * 20
-        if self._cursor.file_size() < expected_size:
+        # NOTE: the size our memory manager knows is the one of the first file seen at this path
+        if len(self._cursor.map()) < expected_size:
             raise ParseError("Index file at %s is too small for %i objects" % (self._indexpath, size))
         # END verify size
         self._fanout_table = fanout_table
-- 
2.43.0


From 0aa7d4159d2fe5d404670884429ed15e9de0d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:28 +0000
Subject: [PATCH 52/52] fix: after an error while loading or updating,
 databases appeared to be empty

---
 gitdb/db/git.py  | 11 ++++++-----
 gitdb/db/pack.py | 20 +++++++++++++++-----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index 55e078d..a4ed381 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -43,29 +43,30 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            self._dbs = list()
+            dbs = list()
             loose_db = None
             for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
                                    (self.loose_dir, self.LooseDBCls),
                                    (self.alternates_dir, self.ReferenceDBCls)):
                 path = self.db_path(subpath)
                 if os.path.exists(path):
-                    self._dbs.append(dbcls(path))
+                    dbs.append(dbcls(path))
                     if dbcls is self.LooseDBCls:
-                        loose_db = self._dbs[-1]
+                        loose_db = dbs[-1]
                     # END remember loose db
                 # END check path exists
             # END for each db type
 
             # should have at least one subdb
-            if not self._dbs:
+            if not dbs:
                 raise InvalidDBRoot(self.root_path())
             # END handle error
 
             # we the first one should have the store method
             assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
 
-            # finally set the value
+            # finally set the values
+            self._dbs = dbs
             self._loose_db = loose_db
         else:
             super()._set_cache_(attr)
diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 9d1bb9e..50eaadd 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -22,7 +22,6 @@ from gitdb.pack import PackEntity
 from functools import reduce
 
 import os
-import glob
 
 __all__ = ('PackedDB', )
 
@@ -51,7 +50,13 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
     def _set_cache_(self, attr):
         if attr == '_entities':
             self._entities = list()
-            self.update_cache(force=True)
+            try:
+                self.update_cache(force=True)
+            except:
+                # try again next time
+                del(self._entities)
+                raise
+            # END don't appear to be empty after errors
         # END handle entities initialization
 
     def _sort_entities(self):
@@ -155,13 +160,17 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # NOTE: if the entities are loaded just now, this updates the cache as well. Thus it must
         # happen before we remember the time and list the files, or we use an outdated listing
         our_pack_files = {item[1].pack().path() for item in self._entities}
-        self._st_mtime = stat.st_mtime
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # a pack cannot be used (yet) without its index
-        pack_files = {path for path in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
-                      if os.path.isfile(path[:-len("pack")] + "idx")}
+        # NOTE: errors must not make it look as if there were no packs
+        with os.scandir(self.root_path()) as entries:
+            names = {entry.name for entry in entries
+                     if entry.name.startswith("pack-") and entry.name.endswith((".pack", ".idx")) and entry.is_file()}
+        # END obtain names of all files
+        pack_files = {os.path.join(self.root_path(), name) for name in names
+                      if name.endswith(".pack") and name[:-len("pack")] + "idx" in names}
 
         # new packs
         for pack_file in (pack_files - our_pack_files):
@@ -186,6 +195,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # reinitialize prioritiess
         self._sort_entities()
+        self._st_mtime = stat.st_mtime      # only now, as we have to try again after errors
         return True
 
     def entities(self):
-- 
2.43.0

