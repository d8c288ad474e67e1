From d0e0f29de688e9fe16f64f670dddb436461bded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 01/44] fix: count only what is still missing when a bounded
 readline crosses buffers

BufferedReader.readline(length) subtracted the length of the whole
accumulated line on every refill, so with short reads the line came back
shorter than the limit although more data was available.
---
 warcio/bufferedreaders.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..3ab734e 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -191,9 +191,10 @@ class BufferedReader(object):
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
+            remaining = None
             if length:
-                length -= len(linebuff)
-                if length <= 0:
+                remaining = length - len(linebuff)
+                if remaining <= 0:
                     break
 
             self._fillbuff()
@@ -201,7 +202,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            linebuff += self.buff.readline(remaining)
 
         return linebuff
 
-- 
2.43.0


From 1b9a94ebc136cfc02cf0fe2d6ed28356a3a30056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 02/44] fix: keep raw data until the decompressor gives output,
 for the not-compressed fallback

When the first reads are so short that the decompressor only fails on a
later one, the data fed before was lost: a plain WARC read byte by byte
lost its first byte, as did raw deflate content.
---
 warcio/bufferedreaders.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 3ab734e..fd22320 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -83,6 +83,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data fed to the decompressor before its first output
+        self.raw_pending = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -133,11 +135,19 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            if self.num_block_read == 0:
+                self.raw_pending += data
+
             try:
                 data = self.decompressor.decompress(data)
+                if data:
+                    self.raw_pending = b''
             except Exception as e:
                 # if first read attempt, assume non-gzipped stream
                 if self.num_block_read == 0:
+                    # including any data already fed without any output
+                    data = self.raw_pending
+                    self.raw_pending = b''
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
-- 
2.43.0


From 9efd5c23f8890bb3c8bdffb4d3fa98529b178766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 03/44] fix: a negative size passed to LimitReader reads to the
 limit, not beyond it

read(-1)/readline(-1), the conventional way to read everything, passed -1
to the underlying stream, which then read past the limit.
---
 warcio/limitreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From d7d105de9810d9019c4acd0895b06642d68c0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 04/44] fix: narrowing a LimitReader leaves its position
 unchanged

wrap_stream() on a LimitReader lowered limit only, so that tell() jumped
forward by the difference although nothing was read.
---
 warcio/limitreader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index ef81bd7..b2df6d5 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -57,7 +57,10 @@ class LimitReader(object):
                 # optimize: if already a LimitStream, set limit to
                 # the smaller of the two limits
                 if isinstance(stream, LimitReader):
+                    # keep tell() at the number of bytes already read
+                    pos = stream.tell()
                     stream.limit = min(stream.limit, content_length)
+                    stream._orig_limit = pos + stream.limit
                 else:
                     stream = LimitReader(stream, content_length)
 
-- 
2.43.0


From 44f38bdba75134c768f5d1b24497d544677b32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 05/44] fix: a negative size passed to BufferedReader means no
 limit

read(-1) returned nothing at all, and readline(-1) stopped at the end of
the current buffer.
---
 warcio/bufferedreaders.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index fd22320..670d890 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -167,6 +167,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
@@ -192,6 +195,9 @@ class BufferedReader(object):
         if length == 0:
             return b''
 
+        if length is not None and length < 0:
+            length = None
+
         self._fillbuff()
 
         if self.empty():
-- 
2.43.0


From 7609f62737df769c14e5a873c4abb0d04e0ffd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 06/44] fix: reading all gzip members does not stop at an empty
 one

With read_all_members, an empty member, or a member ending exactly where
a read ends, looked like the end of the data: read() returned b'' although
more members follow, and recompressing such a file lost the rest.
---
 warcio/bufferedreaders.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 670d890..1bc202f 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -97,6 +97,14 @@ class BufferedReader(object):
             self.decompressor = None
 
     def _fillbuff(self, block_size=None):
+        self._fillbuff_once(block_size)
+
+        # if reading all members and nothing was left in the current one,
+        # continue with the next member
+        while self.empty() and self.starting_data:
+            self._fillbuff_once(block_size)
+
+    def _fillbuff_once(self, block_size=None):
         if not self.empty():
             return
 
-- 
2.43.0


From 0f107b3447673730749293a41ce46a4fc31d3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 07/44] fix: chunked content with trailers, or cut off outside
 of chunk data

Trailer fields after the last chunk, and data cut off inside a chunk
terminator, a further length header or before the final empty line, made
the reader treat the data as not chunked: raw chunk framing was delivered
as content and bytes following the failed check were dropped.
---
 warcio/bufferedreaders.py | 60 +++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 1bc202f..ed6b728 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -312,6 +312,7 @@ class ChunkedDataReader(BufferedReader):
         super(ChunkedDataReader, self).__init__(stream, **kwargs)
         self.all_chunks_read = False
         self.not_chunked = False
+        self.num_chunks_read = 0
 
         # if False, we'll use best-guess fallback for parse errors
         self.raise_chunked_data_exceptions = raise_exceptions
@@ -344,7 +345,22 @@ class ChunkedDataReader(BufferedReader):
                 # parse as block as non-chunked
                 return super(ChunkedDataReader, self)._fillbuff(block_size)
 
+    def _cut_off(self, data=b''):
+        # if we unexpectedly run out of data,
+        # either raise an exception or just stop reading,
+        # assuming file was cut off
+        if self.raise_chunked_data_exceptions:
+            msg = 'Ran out of data before end of chunk'
+            raise ChunkedDataException(msg, data)
+
+        self.all_chunks_read = True
+        self._process_read(data)
+
     def _try_decode(self, length_header):
+        # ran out of data before or in a further length header
+        if self.num_chunks_read and len(length_header) < 64 and not length_header.endswith(b'\n'):
+            return self._cut_off()
+
         # decode length header
         try:
             # ensure line ends with \r\n
@@ -352,18 +368,24 @@ class ChunkedDataReader(BufferedReader):
             chunk_size = length_header[:-2].split(b';')[0]
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
-            assert(chunk_size <= 2**31)
+            assert(0 <= chunk_size <= 2**31)
         except (ValueError, AssertionError):
             raise ChunkedDataException(b"Couldn't decode length header " +
                                        length_header)
 
         if not chunk_size:
-            # chunk_size 0 indicates end of file. read final bytes to compute digest.
-            final_data = self.stream.read(2)
-            try:
-                assert(final_data == b'\r\n')
-            except AssertionError:
-                raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
+            # chunk_size 0 indicates end of file. read final bytes to compute digest:
+            # optional trailer fields, and the final empty line
+            final_data = b''
+            while True:
+                line = self.stream.readline()
+                final_data += line
+                if line == b'\r\n':
+                    break
+                if not line or (self.num_chunks_read and not line.endswith(b'\n')):
+                    return self._cut_off()
+                if b':' not in line:
+                    raise ChunkedDataException(b"Incorrect \r\n after length header of 0", final_data)
             self.all_chunks_read = True
             self._process_read(b'')
             return
@@ -375,27 +397,23 @@ class ChunkedDataReader(BufferedReader):
         while data_len < chunk_size:
             new_data = self.stream.read(chunk_size - data_len)
 
-            # if we unexpectedly run out of data,
-            # either raise an exception or just stop reading,
-            # assuming file was cut off
             if not new_data:
-                if self.raise_chunked_data_exceptions:
-                    msg = 'Ran out of data before end of chunk'
-                    raise ChunkedDataException(msg, data)
-                else:
-                    chunk_size = data_len
-                    self.all_chunks_read = True
+                return self._cut_off(data)
 
             data += new_data
             data_len = len(data)
 
         # if we successfully read a block without running out,
         # it should end in \r\n
-        if not self.all_chunks_read:
-            clrf = self.stream.read(2)
-            if clrf != b'\r\n':
-                raise ChunkedDataException(b"Chunk terminator not found.",
-                                           data)
+        clrf = self.stream.read(2)
+        if len(clrf) < 2 and b'\r\n'.startswith(clrf):
+            return self._cut_off(data)
+
+        if clrf != b'\r\n':
+            raise ChunkedDataException(b"Chunk terminator not found.",
+                                       data)
+
+        self.num_chunks_read += 1
 
         # hand to base class for further processing
         self._process_read(data)
-- 
2.43.0


From 9d1f706ad2677488c56a4b3e9fd95b152f8b625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 08/44] fix: response, request and revisit records without
 WARC-Target-URI

Reading one (e.g. the last record of a truncated file) failed with an
AttributeError; such a record can have no http: uri, so no HTTP headers.
---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..23f560b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -181,7 +181,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From d504b0495b7f4abdfdb4cd3e89a2013662bcae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 09/44] fix: a digest which can not be decoded fails the digest
 check

Checking a record with such a digest stopped with a binascii.Error
instead of reporting the digest as failed.
---
 warcio/digestverifyingreader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..f598902 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -124,7 +124,11 @@ def _compare_digest_rfc_3548(digester, digest):
     our_algo, our_value = _parse_digest(digester_b32)
     warc_algo, warc_value = _parse_digest(digest)
 
-    warc_b32 = _to_b32(len(our_value), warc_value)
+    try:
+        warc_b32 = _to_b32(len(our_value), warc_value)
+    except ValueError:
+        # not a valid encoding of anything
+        return False
 
     if our_value == warc_b32:
         return True
-- 
2.43.0


From 3feb6ffe621451a8261d5db04cb13c9d233a1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 10/44] fix: recognise md5 digests in base 16

An md5 digest is 32 characters long both in base 16 and in padded base 32,
so that a correct base 16 one was compared as base 32 and reported as failed.
---
 warcio/digestverifyingreader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index f598902..c56e936 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -125,7 +125,7 @@ def _compare_digest_rfc_3548(digester, digest):
     warc_algo, warc_value = _parse_digest(digest)
 
     try:
-        warc_b32 = _to_b32(len(our_value), warc_value)
+        warc_b32 = _to_b32(our_value, warc_value)
     except ValueError:
         # not a valid encoding of anything
         return False
@@ -136,15 +136,18 @@ def _compare_digest_rfc_3548(digester, digest):
     return False
 
 
-def _to_b32(length, value):
+def _to_b32(our_value, value):
     '''
     Convert value to base 32, given that it's supposed to have the same
     length as the digest we're about to compare it to
     '''
-    if len(value) == length:
+    length = len(our_value)
+
+    # md5 is as long in base 16 as in base 32, but only the latter is padded
+    if len(value) == length and value.endswith('=') == our_value.endswith('='):
         return value  # casefold needed here? -- rfc recommends not allowing
 
-    if len(value) > length:
+    if len(value) >= length:
         binary = base64.b16decode(value, casefold=True)
     else:
         binary = _b64_wrapper(value)
-- 
2.43.0


From 8529b92190c5472b2499f107e404a515c1e4825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 11/44] fix: check the block digest of a record with an empty
 block

The digest was compared only when reading reached the end of the block,
which never happens if there is nothing to read.
---
 warcio/digestverifyingreader.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index c56e936..b6d11ef 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -75,6 +75,10 @@ class DigestVerifyingReader(LimitReader):
                 self.digest_checker.problem('unknown hash algorithm name in payload digest')
                 self.payload_digester_obj = None
 
+        # if the block is empty nothing will be read, check it here
+        if limit == 0:
+            self._check_block()
+
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
         if self.limit == 0:
@@ -85,6 +89,13 @@ class DigestVerifyingReader(LimitReader):
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
 
+    def _check_block(self):
+        check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+        if check is False:
+            self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+        elif check is True and self.digest_checker.passed is not False:
+            self.digest_checker.passed = True
+
     def _update(self, buff):
         super(DigestVerifyingReader, self)._update(buff)
 
@@ -94,11 +105,7 @@ class DigestVerifyingReader(LimitReader):
             self.block_digester.update(buff)
 
         if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
-            if check is False:
-                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
-            elif check is True and self.digest_checker.passed is not False:
-                self.digest_checker.passed = True
+            self._check_block()
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
-- 
2.43.0


From 4d36848374de4e924054857145714ad2deb5a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 12/44] fix: a record cut short does not pass its digest check
 unnoticed

If the data ended before the record's length the digests were never
compared: neither passed nor a problem, so 'warcio check' accepted it.
---
 warcio/digestverifyingreader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index b6d11ef..7aeaf7c 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -59,6 +59,7 @@ class DigestVerifyingReader(LimitReader):
         self.payload_digester = None
         self.payload_digester_obj = None
         self.block_digester = None
+        self.truncated = False
 
         if block_digest:
             try:
@@ -104,6 +105,11 @@ class DigestVerifyingReader(LimitReader):
         if self.block_digester:
             self.block_digester.update(buff)
 
+        # reads are never empty before the limit, unless the data ended early
+        if not buff and (self.block_digester or self.payload_digester) and not self.truncated:
+            self.truncated = True
+            self.digest_checker.problem('digest failed: block ends {} bytes before its length'.format(self.limit))
+
         if self.limit == 0:
             self._check_block()
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
-- 
2.43.0


From d8a712116b3c9f20be5001254652195261b0853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 13/44] fix: do not check the payload digest when the http
 headers are not parsed

With no_record_parse the whole block was taken for the payload, so that
every correct payload digest of an http record was reported as failed.
---
 warcio/recordloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 23f560b..3675eb0 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -148,7 +148,8 @@ class ArcWarcRecordLoader(object):
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
 
-        if is_verifying:
+        # without parsing the http headers, it is not known where the payload begins
+        if is_verifying and not (no_record_parse and rec_type in self.HTTP_RECORDS):
             stream.begin_payload()
 
         return ArcWarcRecord(the_format, rec_type,
-- 
2.43.0


From 22922af4f0a0dfc8fc86f78f23fce3b028470074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 14/44] fix: transfer codings are case-insensitive

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 3675eb0..12c4831 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,7 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        if self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From 00666801839b740c74302a9d0d1de9b3d6235b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 15/44] fix: BufferWARCWriter writes at the end, wherever its
 stream was read to

---
 warcio/warcwriter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..fbc593f 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -158,4 +158,16 @@ class BufferWARCWriter(WARCWriter):
         self.out.seek(0)
         return self.out
 
+    def _write_warc_record(self, out, record):
+        # the stream handed out by get_stream() may have been read in the meantime:
+        # always write at the end, and leave a position in the middle as it was
+        pos = out.tell()
+        out.seek(0, 2)
+        at_end = (out.tell() == pos)
+        try:
+            super(BufferWARCWriter, self)._write_warc_record(out, record)
+        finally:
+            if not at_end:
+                out.seek(pos)
+
 
-- 
2.43.0


From 4d823896a23a82063650852687451d3dd4d962f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 16/44] fix: http headers with a non-ascii status line or
 header name can be written

---
 warcio/statusandheaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..8737bbd 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -14,6 +14,7 @@ import re
 #=================================================================
 class StatusAndHeaders(object):
     ENCODE_HEADER_RX = re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)')
+    NON_ASCII_RX = re.compile(u'[^\x00-\x7f]+')
     """
     Representation of parsed http-style status line and headers
     Status Line if first line of request/response
@@ -176,6 +177,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         except (UnicodeEncodeError, UnicodeDecodeError):
             self.percent_encode_non_ascii_headers()
             string = self.to_str(filter_func)
+            # anything else that is not ascii (status line, header names)
+            string = self.NON_ASCII_RX.sub(lambda m: quote(m.group(0)), string)
             string = string.encode('ascii')
 
         return string + b'\r\n'
-- 
2.43.0


From 4b98bd6ef091ba7cc295791a7c4b77cfdbd920eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 17/44] fix: block digest and length of copied records whose
 http headers are not written as they were read

---
 warcio/recordbuilder.py    | 19 +++++++++++--------
 warcio/recordloader.py     | 28 +++++++++++++++++++++++++---
 warcio/statusandheaders.py |  2 ++
 warcio/warcwriter.py       | 20 +++++++++++++++-----
 4 files changed, 53 insertions(+), 16 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..ff1d363 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -4,7 +4,7 @@ import tempfile
 from datetime import datetime, timezone
 from io import BytesIO
 
-from warcio.recordloader import ArcWarcRecord, ArcWarcRecordLoader
+from warcio.recordloader import ArcWarcRecord, ArcWarcRecordLoader, LineKeeper
 from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeaders
 from warcio.timeutils import datetime_to_iso_date
 from warcio.utils import to_native_str, BUFF_SIZE, Digester
@@ -91,9 +91,12 @@ class RecordBuilder(object):
 
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
-            http_headers = loader.load_http_headers(record_type, uri, payload, length)
-            if http_headers and length is not None:
-                length -= payload.tell()
+            lines = LineKeeper(payload)
+            http_headers = loader.load_http_headers(record_type, uri, lines, length)
+            if http_headers is not None:
+                http_headers.loaded_buff = lines.get_buff()
+                if length is not None:
+                    length -= len(http_headers.loaded_buff)
 
         if not payload:
             payload = BytesIO()
@@ -155,8 +158,8 @@ class RecordBuilder(object):
     def _make_warc_date(cls, use_micros=False):
         return datetime_to_iso_date(datetime.now(timezone.utc).replace(tzinfo=None), use_micros=use_micros)
 
-    def ensure_digest(self, record, block=True, payload=True):
-        if block:
+    def ensure_digest(self, record, block=True, payload=True, renew_block=False):
+        if block and not renew_block:
             if record.rec_headers.get_header('WARC-Block-Digest'):
                 block = False
 
@@ -183,7 +186,7 @@ class RecordBuilder(object):
             pos = 0
             temp_file = self._create_temp_file()
 
-        if block_digester and record.http_headers:
+        if block_digester and (record.http_headers or getattr(record.http_headers, 'loaded_buff', None)):
             if not record.http_headers.headers_buff:
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
@@ -210,7 +213,7 @@ class RecordBuilder(object):
             record.rec_headers.add_header('WARC-Payload-Digest', str(payload_digester))
 
         if block_digester:
-            record.rec_headers.add_header('WARC-Block-Digest', str(block_digester))
+            record.rec_headers.replace_header('WARC-Block-Digest', str(block_digester))
 
     @staticmethod
     def _iter_stream(stream):
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 12c4831..fcc53a2 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -44,6 +44,22 @@ class ArcWarcRecord(object):
             return self.raw_stream
 
 
+#=================================================================
+class LineKeeper(object):
+    """ Pass on readline(), keeping what was read """
+    def __init__(self, stream):
+        self.stream = stream
+        self.lines = []
+
+    def readline(self):
+        line = self.stream.readline()
+        self.lines.append(line)
+        return line
+
+    def get_buff(self):
+        return b''.join(self.lines)
+
+
 #=================================================================
 class ArcWarcRecordLoader(object):
     WARC_TYPES = ['WARC/1.1', 'WARC/1.0', 'WARC/0.17', 'WARC/0.18']
@@ -140,13 +156,19 @@ class ArcWarcRecordLoader(object):
         # load http headers if parsing
         if not no_record_parse:
             start = stream.tell()
-            http_headers = self.load_http_headers(rec_type, uri, stream, length)
-            if length and http_headers:
-                payload_length = length - (stream.tell() - start)
+            lines = LineKeeper(stream)
+            http_headers = self.load_http_headers(rec_type, uri, lines, length)
+            if http_headers is not None:
+                http_headers.loaded_buff = lines.get_buff()
+                if length:
+                    payload_length = length - (stream.tell() - start)
 
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
+            http_headers.loaded_buff = b''
+            if length is not None:
+                payload_length = length
 
         # without parsing the http headers, it is not known where the payload begins
         if is_verifying and not (no_record_parse and rec_type in self.HTTP_RECORDS):
diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 8737bbd..e981ab8 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -31,6 +31,8 @@ class StatusAndHeaders(object):
         self.protocol = protocol
         self.total_len = total_len
         self.headers_buff = None
+        # the bytes the headers were read from, when loaded from a record
+        self.loaded_buff = None
 
     def get_header(self, name, default_value=None):
         """
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index fbc593f..1b6b332 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -42,9 +42,19 @@ class BaseWARCWriter(RecordBuilder):
         if self.gzip:
             out = GzippingWrapper(out)
 
-        if record.http_headers:
+        loaded_buff = getattr(record.http_headers, 'loaded_buff', None)
+
+        # http headers loaded from an empty header block are still a (blank) line
+        has_http_headers = bool(record.http_headers or loaded_buff)
+
+        if has_http_headers:
             record.http_headers.compute_headers_buffer(self.header_filter)
 
+        # loaded headers which are not written as they were read
+        # (reformatted, changed or filtered): block digest no longer applies
+        renew_block = (loaded_buff is not None and
+                       loaded_buff != record.http_headers.headers_buff)
+
         # Content-Length is None/unknown
         # Fix record by: buffering and recomputing all digests and length
         # (since no length, can't trust existing digests)
@@ -61,7 +71,7 @@ class BaseWARCWriter(RecordBuilder):
 
         # ensure digests are set
         else:
-            self.ensure_digest(record, block=True, payload=True)
+            self.ensure_digest(record, block=True, payload=True, renew_block=renew_block)
 
         if record.content_type != None:
             # ensure proper content type
@@ -73,10 +83,10 @@ class BaseWARCWriter(RecordBuilder):
             http_headers_only = False
 
         # compute Content-Length
-        if record.http_headers and record.payload_length >= 0:
+        if has_http_headers and record.payload_length is not None and record.payload_length >= 0:
             actual_len = 0
 
-            if record.http_headers:
+            if has_http_headers:
                 actual_len = len(record.http_headers.headers_buff)
 
             if not http_headers_only:
@@ -91,7 +101,7 @@ class BaseWARCWriter(RecordBuilder):
         out.write(record.rec_headers.to_bytes(encoding='utf-8'))
 
         # write headers buffer, if any
-        if record.http_headers:
+        if has_http_headers:
             out.write(record.http_headers.headers_buff)
 
         if not http_headers_only:
-- 
2.43.0


From 981e990ced663f10d58b18d1430ae9ecd5f0feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 18/44] fix: revisit records: write the block of one without
 http headers, leave the unwritten payload out of the block digest

---
 warcio/recordbuilder.py |  7 ++++++-
 warcio/warcwriter.py    | 12 +++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index ff1d363..6df9144 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -176,6 +176,7 @@ class RecordBuilder(object):
         if not block_digester and not payload_digester and has_length:
             return
 
+        headers_only = False
         temp_file = None
         try:
             # force buffering if no length is set
@@ -191,8 +192,12 @@ class RecordBuilder(object):
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
 
+            # only the http headers of a revisit record are written
+            if record.rec_type == 'revisit':
+                headers_only = True
+
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not headers_only:
                 block_digester.update(buf)
 
             if payload_digester:
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 1b6b332..391a182 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -55,6 +55,13 @@ class BaseWARCWriter(RecordBuilder):
         renew_block = (loaded_buff is not None and
                        loaded_buff != record.http_headers.headers_buff)
 
+        # a revisit record with http headers is written without payload,
+        # its block digest can not cover one either
+        http_headers_only = (record.rec_type == 'revisit' and has_http_headers)
+
+        if http_headers_only and record.payload_length != 0:
+            renew_block = True
+
         # Content-Length is None/unknown
         # Fix record by: buffering and recomputing all digests and length
         # (since no length, can't trust existing digests)
@@ -77,11 +84,6 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
-            http_headers_only = True
-        else:
-            http_headers_only = False
-
         # compute Content-Length
         if has_http_headers and record.payload_length is not None and record.payload_length >= 0:
             actual_len = 0
-- 
2.43.0


From 4cbea8337d984010556ef46a633506992c69653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 19/44] fix: create a response or request record from an empty
 payload of unknown length

---
 warcio/recordbuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 6df9144..5d638fa 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -92,7 +92,11 @@ class RecordBuilder(object):
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
             lines = LineKeeper(payload)
-            http_headers = loader.load_http_headers(record_type, uri, lines, length)
+            try:
+                http_headers = loader.load_http_headers(record_type, uri, lines, length)
+            except EOFError:
+                # empty payload of unknown length
+                http_headers = None
             if http_headers is not None:
                 http_headers.loaded_buff = lines.get_buff()
                 if length is not None:
-- 
2.43.0


From 96a63aed985d3f95a41060c860ef1ace953bde2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 20/44] fix: a digest problem that is raised is recorded as not
 passed

---
 warcio/digestverifyingreader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 7aeaf7c..5d096b9 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -27,11 +27,11 @@ class DigestChecker(object):
 
     def problem(self, value, passed=False):
         self._problem.append(value)
+        self._passed = passed
         if self.kind == 'raise':
             raise ArchiveLoadFailed(value)
         if self.kind == 'log':
             sys.stderr.write(value + '\n')
-        self._passed = passed
 
 
 # ============================================================================
-- 
2.43.0


From 002383c731859bffcf605db753219e50cb0fd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 21/44] fix: a digest of an algorithm that hashlib can not use
 is an unknown one

---
 warcio/digestverifyingreader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 5d096b9..e2e6a55 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -65,14 +65,16 @@ class DigestVerifyingReader(LimitReader):
             try:
                 algo, _ = _parse_digest(block_digest)
                 self.block_digester = Digester(algo)
-            except ValueError:
+                str(self.block_digester)  # not possible for shake_128, shake_256
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in block digest')
                 self.block_digester = None
         if payload_digest:
             try:
                 algo, _ = _parse_digest(self.payload_digest)
                 self.payload_digester_obj = Digester(algo)
-            except ValueError:
+                str(self.payload_digester_obj)  # not possible for shake_128, shake_256
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in payload digest')
                 self.payload_digester_obj = None
 
-- 
2.43.0


From 83c920ef8b35316ff6da51a280e19a97142c95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 22/44] fix: a record length which does not fit an index does
 not raise OverflowError

---
 warcio/recordloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index fcc53a2..19488ee 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -1,3 +1,5 @@
+import sys
+
 from warcio.statusandheaders import StatusAndHeaders
 from warcio.statusandheaders import StatusAndHeadersParser
 from warcio.statusandheaders import StatusAndHeadersParserException
@@ -128,7 +130,8 @@ class ArcWarcRecordLoader(object):
 
         try:
             if length is not None:
-                length = int(length) - sub_len
+                # more than that can not be read
+                length = min(int(length) - sub_len, sys.maxsize)
                 if length < 0:
                     is_err = True
 
-- 
2.43.0


From 23cb52cc5aca665cc4ecc0cd4a3f6f516aee8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 23/44] fix: capture_http: record only what was read into a
 buffer, support read1(), peek() and fileno() of responses

---
 warcio/capture_http.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..87a157b 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -53,22 +53,36 @@ class RecordingStream(object):
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        # may be less than the size of the buffer
+        if res:
+            self.recorder.write_response(memoryview(buff)[:res])
         return res
 
+    # Used in PY3 Only
+    def read1(self, *args):  #pragma: no cover
+        buff = self.fp.read1(*args)
+        self.recorder.write_response(buff)
+        return buff
+
     def readline(self, maxlen=-1):
         line = self.fp.readline(maxlen)
         self.recorder.write_response(line)
         return line
 
     def close(self):
-        self.recorder.done()
-        if self.fp:
-            return self.fp.close()
+        try:
+            self.recorder.done()
+        finally:
+            if self.fp:
+                self.fp.close()
 
     def flush(self):
         return self.fp.flush()
 
+    # anything else, eg. peek() or fileno(), does not consume data
+    def __getattr__(self, name):
+        return getattr(self.fp, name)
+
 
 # ============================================================================
 class RecordingHTTPResponse(httplib.HTTPResponse):
-- 
2.43.0


From cf37ce53c4b16f3f4b42ed7227677d88bbf0ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 24/44] fix: capture_http: record each exchange on its own,
 exchanges of several connections or behind a tunnel do not mix

---
 warcio/capture_http.py | 80 ++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 87a157b..fbd32b4 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -102,22 +102,31 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         else:
             self.recorder = None
 
+        # the recorder of the current request and its response
+        self.exchange = None
+        response_class = self.response_class
+
         def make_recording_response(*args, **kwargs):
-            return RecordingHTTPResponse(self.recorder, *args, **kwargs)
+            if not self.exchange:
+                return response_class(*args, **kwargs)
+
+            return RecordingHTTPResponse(self.exchange, *args, **kwargs)
 
         if self.recorder:
             self.response_class = make_recording_response
 
     def send(self, data):
-        if not self.recorder:
+        exchange = self.exchange
+        if not exchange:
             orig_connection.send(self, data)
             return
 
         def send_request(buff):
-            self.recorder.extract_url(buff, self.host, self.port, self.default_port)
+            exchange.extract_url(buff, self.host, self.port, self.default_port,
+                                 self._tunnel_host, self._tunnel_port)
 
             orig_connection.send(self, buff)
-            self.recorder.write_request(buff)
+            exchange.write_request(buff)
 
         # if sending request body as stream
         # (supported via httplib but seems unused via higher-level apis)
@@ -132,43 +141,47 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             send_request(data)
 
     def _tunnel(self, *args, **kwargs):
-        if self.recorder:
-            self.recorder.start_tunnel()
-
-        return orig_connection._tunnel(self, *args, **kwargs)
+        # setting up the tunnel, possibly while sending the first request
+        # through it, is not part of the exchange
+        exchange = self.exchange
+        self.exchange = None
+        try:
+            return orig_connection._tunnel(self, *args, **kwargs)
+        finally:
+            self.exchange = exchange
 
     def putrequest(self, *args, **kwargs):
-        if self.recorder:
-            self.recorder.start()
-        return orig_connection.putrequest(self, *args, **kwargs)
+        # if a request can not be sent now, the previous exchange continues
+        res = orig_connection.putrequest(self, *args, **kwargs)
+        self.exchange = self.recorder.start() if self.recorder else None
+        return res
 
 
 # ============================================================================
 class RequestRecorder(object):
+    """
+    The recorder of a capture context, and of each exchange recorded in it:
+    start() returns a new recorder with its own buffers and headers
+    """
     def __init__(self, writer, filter_func=None, record_ip=True):
         self.writer = writer
         self.filter_func = filter_func
         self.request_out = None
         self.response_out = None
         self.url = None
-        self.connect_host = self.connect_port = None
         self.started_req = False
         self.first_line_read = False
         self.lock = threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
 
-    def start_tunnel(self):
-        self.connect_host = self.connect_port = None
-        self.started_req = False
-        self.first_line_read = False
-
     def start(self):
-        self.request_out = self._create_buffer()
-        self.response_out = self._create_buffer()
-        self.url = None
-        self.started_req = True
-        self.first_line_read = False
+        exchange = RequestRecorder(self.writer, self.filter_func, self.record_ip)
+        exchange.lock = self.lock
+        exchange.request_out = self._create_buffer()
+        exchange.response_out = self._create_buffer()
+        exchange.started_req = True
+        return exchange
 
     def _create_buffer(self):
         return SpooledTemporaryFile(BUFF_SIZE)
@@ -211,10 +224,12 @@ class RequestRecorder(object):
             with self.lock:
                 self.writer.write_request_response_pair(request, response)
         finally:
+            self.started_req = False
             self.request_out.close()
             self.response_out.close()
 
-    def extract_url(self, data, host, port, default_port):
+    def extract_url(self, data, host, port, default_port,
+                    tunnel_host=None, tunnel_port=None):
         if self.first_line_read:
             return
 
@@ -223,21 +238,18 @@ class RequestRecorder(object):
         line = to_native_str(buff.readline(), 'latin-1')
 
         parts = line.split(' ', 2)
-        verb = parts[0]
         path = parts[1]
 
-        if verb == "CONNECT":
-            parts = path.split(":", 1)
-            self.connect_host = parts[0]
-            self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
-            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
-            return
+        if ':' in host and not host.startswith('['):
+            host = '[' + host + ']'
 
-        if self.connect_host:
-            host = self.connect_host
+        if tunnel_host:
+            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
+            host = tunnel_host
+            port = tunnel_port or default_port
 
-        if self.connect_port:
-            port = self.connect_port
+            if ':' in host and not host.startswith('['):
+                host = '[' + host + ']'
 
         if path.startswith(('http:', 'https:')):
             self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(host, port)
-- 
2.43.0


From 0ddd51505d2bf9272747dc5f6e642dc106f11145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 25/44] fix: capture_http: sending a request body from a text
 file or in parts, as supported by http.client

---
 warcio/capture_http.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index fbd32b4..d75ae97 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -2,6 +2,7 @@ import threading
 
 from io import BytesIO
 
+from six import text_type
 from six.moves import http_client as httplib
 
 from contextlib import contextmanager
@@ -91,6 +92,18 @@ class RecordingHTTPResponse(httplib.HTTPResponse):
         self.fp = RecordingStream(self.fp, recorder)
 
 
+# ============================================================================
+def is_buffer(data):
+    if isinstance(data, text_type):
+        return True
+
+    try:
+        memoryview(data)
+        return True
+    except TypeError:
+        return False
+
+
 # ============================================================================
 class RecordingHTTPConnection(httplib.HTTPConnection):
     local = threading.local()
@@ -136,6 +149,14 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
                 if not buff:
                     break
 
+                if isinstance(buff, text_type):
+                    buff = buff.encode('iso-8859-1')
+
+                send_request(buff)
+
+        # or in parts, also supported via httplib
+        elif hasattr(data, '__iter__') and not is_buffer(data):  #pragma: no cover
+            for buff in data:
                 send_request(buff)
         else:
             send_request(data)
-- 
2.43.0


From e8e488555aabce9fd5148a3ceb2c20866e156267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 26/44] fix: capture_http: errors of the client are not
 replaced by parse errors, requests of any method are recorded

---
 warcio/capture_http.py  | 4 ++++
 warcio/recordbuilder.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d75ae97..7a09abb 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -233,6 +233,10 @@ class RequestRecorder(object):
         if not self.started_req:
             return
 
+        # nothing received, the client reports the error, or tries again
+        if not self.response_out.tell():
+            return
+
         try:
             request = self._create_record(self.request_out, 'request')
             response = self._create_record(self.response_out, 'response')
diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 5d638fa..9839abb 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -90,7 +90,7 @@ class RecordBuilder(object):
             warc_headers_dict = dict()
 
         if payload and not http_headers:
-            loader = ArcWarcRecordLoader()
+            loader = ArcWarcRecordLoader(verify_http=False)
             lines = LineKeeper(payload)
             try:
                 http_headers = loader.load_http_headers(record_type, uri, lines, length)
-- 
2.43.0


From 0e9048db5d57ad21b4857e5191fee6e104e4dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 27/44] fix: capture_http: leaving a context continues the
 enclosing one, stops recording to a closed output, and closes the file in any
 case

---
 warcio/capture_http.py | 68 +++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 7a09abb..d377d09 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -110,10 +110,7 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
     def __init__(self, *args, **kwargs):
         orig_connection.__init__(self, *args, **kwargs)
-        if hasattr(self.local, 'recorder'):
-            self.recorder = self.local.recorder
-        else:
-            self.recorder = None
+        self.recorder = self.current_recorder()
 
         # the recorder of the current request and its response
         self.exchange = None
@@ -128,6 +125,16 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         if self.recorder:
             self.response_class = make_recording_response
 
+    @classmethod
+    def current_recorder(cls):
+        recorder = getattr(cls.local, 'recorder', None)
+
+        # contexts that were left, not necessarily the innermost first
+        while recorder and not recorder.active:
+            recorder = recorder.enclosing
+
+        return recorder
+
     def send(self, data):
         exchange = self.exchange
         if not exchange:
@@ -174,7 +181,11 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
     def putrequest(self, *args, **kwargs):
         # if a request can not be sent now, the previous exchange continues
         res = orig_connection.putrequest(self, *args, **kwargs)
-        self.exchange = self.recorder.start() if self.recorder else None
+
+        if self.recorder and self.recorder.is_open():
+            self.exchange = self.recorder.start()
+        else:
+            self.exchange = None
         return res
 
 
@@ -184,8 +195,12 @@ class RequestRecorder(object):
     The recorder of a capture context, and of each exchange recorded in it:
     start() returns a new recorder with its own buffers and headers
     """
-    def __init__(self, writer, filter_func=None, record_ip=True):
+    def __init__(self, writer, filter_func=None, record_ip=True, enclosing=None):
         self.writer = writer
+        self.enclosing = enclosing
+        self.context = self
+        # until the context is left
+        self.active = True
         self.filter_func = filter_func
         self.request_out = None
         self.response_out = None
@@ -198,12 +213,25 @@ class RequestRecorder(object):
 
     def start(self):
         exchange = RequestRecorder(self.writer, self.filter_func, self.record_ip)
+        exchange.context = self
         exchange.lock = self.lock
         exchange.request_out = self._create_buffer()
         exchange.response_out = self._create_buffer()
         exchange.started_req = True
         return exchange
 
+    def is_open(self):
+        # the connections of a context are recorded also after it was left,
+        # as long as there is an output
+        return self.active or not getattr(getattr(self.writer, 'out', None), 'closed', False)
+
+    def stop(self, out=None):
+        # not while a record is being written
+        with self.lock:
+            self.active = False
+            if out:
+                out.close()
+
     def _create_buffer(self):
         return SpooledTemporaryFile(BUFF_SIZE)
 
@@ -238,6 +266,9 @@ class RequestRecorder(object):
             return
 
         try:
+            if not self.context.is_open():
+                return
+
             request = self._create_record(self.request_out, 'request')
             response = self._create_record(self.response_out, 'response')
 
@@ -247,7 +278,8 @@ class RequestRecorder(object):
                     return
 
             with self.lock:
-                self.writer.write_request_response_pair(request, response)
+                if self.context.is_open():
+                    self.writer.write_request_response_pair(request, response)
         finally:
             self.started_req = False
             self.request_out.close()
@@ -297,24 +329,32 @@ httplib.HTTPConnection = RecordingHTTPConnection
 def capture_http(warc_writer=None, filter_func=None, append=True,
                 record_ip=True, **kwargs):
     out = None
+    recorder = None
     if warc_writer == None:
         if 'gzip' not in kwargs:
             kwargs['gzip'] = False
 
         warc_writer = BufferWARCWriter(**kwargs)
 
-    if isinstance(warc_writer, str):
-        out = open(warc_writer, 'ab' if append else 'xb')
-        warc_writer = WARCWriter(out, **kwargs)
-
     try:
-        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
+        if isinstance(warc_writer, str):
+            out = open(warc_writer, 'ab' if append else 'xb')
+            warc_writer = WARCWriter(out, **kwargs)
+
+        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip,
+                                   enclosing=RecordingHTTPConnection.current_recorder())
         RecordingHTTPConnection.local.recorder = recorder
         yield warc_writer
 
     finally:
-        RecordingHTTPConnection.local.recorder = None
-        if out:
+        if recorder:
+            try:
+                recorder.stop(out)
+            finally:
+                # an enclosing context continues
+                RecordingHTTPConnection.local.recorder = RecordingHTTPConnection.current_recorder()
+
+        elif out:
             out.close()
 
 
-- 
2.43.0


From 7266ddffad5f775b65f73d6589c8776619826c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 28/44] fix: capture_http: record connections made before the
 context, keep the response class of a connection

---
 warcio/capture_http.py | 46 +++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d377d09..cccd919 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -85,13 +85,6 @@ class RecordingStream(object):
         return getattr(self.fp, name)
 
 
-# ============================================================================
-class RecordingHTTPResponse(httplib.HTTPResponse):
-    def __init__(self, recorder, *args, **kwargs):
-        httplib.HTTPResponse.__init__(self, *args, **kwargs)
-        self.fp = RecordingStream(self.fp, recorder)
-
-
 # ============================================================================
 def is_buffer(data):
     if isinstance(data, text_type):
@@ -114,16 +107,6 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
         # the recorder of the current request and its response
         self.exchange = None
-        response_class = self.response_class
-
-        def make_recording_response(*args, **kwargs):
-            if not self.exchange:
-                return response_class(*args, **kwargs)
-
-            return RecordingHTTPResponse(self.exchange, *args, **kwargs)
-
-        if self.recorder:
-            self.response_class = make_recording_response
 
     @classmethod
     def current_recorder(cls):
@@ -168,6 +151,28 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         else:
             send_request(data)
 
+    def getresponse(self, *args, **kwargs):
+        exchange = self.exchange
+        if not exchange:
+            return orig_connection.getresponse(self, *args, **kwargs)
+
+        response_class = self.response_class
+        in_instance = 'response_class' in self.__dict__
+
+        def make_recording_response(*args, **kwargs):
+            response = response_class(*args, **kwargs)
+            response.fp = RecordingStream(response.fp, exchange)
+            return response
+
+        self.response_class = make_recording_response
+        try:
+            return orig_connection.getresponse(self, *args, **kwargs)
+        finally:
+            if in_instance:
+                self.response_class = response_class
+            else:
+                del self.response_class
+
     def _tunnel(self, *args, **kwargs):
         # setting up the tunnel, possibly while sending the first request
         # through it, is not part of the exchange
@@ -182,8 +187,11 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         # if a request can not be sent now, the previous exchange continues
         res = orig_connection.putrequest(self, *args, **kwargs)
 
-        if self.recorder and self.recorder.is_open():
-            self.exchange = self.recorder.start()
+        # also a connection made before the context is recorded
+        recorder = self.current_recorder() or self.recorder
+
+        if recorder and recorder.is_open():
+            self.exchange = recorder.start()
         else:
             self.exchange = None
         return res
-- 
2.43.0


From edef692003a60c6a50845a8994fd099bfe61ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 29/44] fix: capture_http: contexts sharing a writer write one
 pair after another, a response finalized while writing does not deadlock

---
 warcio/capture_http.py | 14 ++++++++++---
 warcio/warcwriter.py   | 46 +++++++++++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index cccd919..65cc904 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -215,7 +215,8 @@ class RequestRecorder(object):
         self.url = None
         self.started_req = False
         self.first_line_read = False
-        self.lock = threading.Lock()
+        # contexts that share a writer take turns
+        self.lock = getattr(writer, 'lock', None) or threading.RLock()
         self.warc_headers = {}
         self.record_ip = record_ip
 
@@ -290,8 +291,15 @@ class RequestRecorder(object):
                     self.writer.write_request_response_pair(request, response)
         finally:
             self.started_req = False
-            self.request_out.close()
-            self.response_out.close()
+            # when called by a finalizer, the pair may not be written yet
+            if hasattr(self.writer, 'in_turn'):
+                self.writer.in_turn(self._close_buffers)
+            else:
+                self._close_buffers()
+
+    def _close_buffers(self):
+        self.request_out.close()
+        self.response_out.close()
 
     def extract_url(self, data, host, port, default_port,
                     tunnel_host=None, tunnel_port=None):
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 391a182..c25a799 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -1,3 +1,4 @@
+import threading
 import zlib
 
 from socket import gethostname
@@ -17,6 +18,10 @@ class BaseWARCWriter(RecordBuilder):
         self.gzip = gzip
         self.hostname = gethostname()
 
+        self.lock = threading.RLock()
+        self.pending = []
+        self.writing = False
+
         self.parser = StatusAndHeadersParser([], verify=False)
 
     def write_request_response_pair(self, req, resp, params=None):
@@ -32,6 +37,22 @@ class BaseWARCWriter(RecordBuilder):
 
         self._do_write_req_resp(req, resp, params)
 
+    def in_turn(self, func):
+        """ Call func while nothing else uses the output: other threads wait,
+        and what a finalizer writes in the middle of a record comes after it
+        """
+        with self.lock:
+            self.pending.append(func)
+            if self.writing:
+                return
+
+            self.writing = True
+            try:
+                while self.pending:
+                    self.pending.pop(0)()
+            finally:
+                self.writing = False
+
     def write_record(self, record, params=None):  #pragma: no cover
         raise NotImplemented()
 
@@ -146,11 +167,14 @@ class WARCWriter(BaseWARCWriter):
         self.out = filebuf
 
     def write_record(self, record, params=None):
-        self._write_warc_record(self.out, record)
+        self.in_turn(lambda: self._write_warc_record(self.out, record))
 
     def _do_write_req_resp(self, req, resp, params):
-        self._write_warc_record(self.out, resp)
-        self._write_warc_record(self.out, req)
+        def write_pair():
+            self._write_warc_record(self.out, resp)
+            self._write_warc_record(self.out, req)
+
+        self.in_turn(write_pair)
 
 
 # ============================================================================
@@ -160,15 +184,17 @@ class BufferWARCWriter(WARCWriter):
         super(BufferWARCWriter, self).__init__(out, *args, **kwargs)
 
     def get_contents(self):
-        pos = self.out.tell()
-        self.out.seek(0)
-        buff = self.out.read()
-        self.out.seek(pos)
-        return buff
+        with self.lock:
+            pos = self.out.tell()
+            self.out.seek(0)
+            buff = self.out.read()
+            self.out.seek(pos)
+            return buff
 
     def get_stream(self):
-        self.out.seek(0)
-        return self.out
+        with self.lock:
+            self.out.seek(0)
+            return self.out
 
     def _write_warc_record(self, out, record):
         # the stream handed out by get_stream() may have been read in the meantime:
-- 
2.43.0


From 8de6912a3da70b6e109c02e139aefa7bddd5953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 30/44] fix: capture_http: an exchange of which nothing was
 sent is not shown to the filter or recorded

---
 warcio/capture_http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 65cc904..ea6e27a 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -270,8 +270,8 @@ class RequestRecorder(object):
         if not self.started_req:
             return
 
-        # nothing received, the client reports the error, or tries again
-        if not self.response_out.tell():
+        # nothing sent or received, the client reports the error, or tries again
+        if not self.request_out.tell() or not self.response_out.tell():
             return
 
         try:
-- 
2.43.0


From 6cbe31b946c445984a7ac0908fdade4e3c8391e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 31/44] fix: capture_http: a response finalized in the middle
 of writing a record is not written, its buffers may be gone

---
 warcio/capture_http.py | 15 +++++----------
 warcio/warcwriter.py   | 33 +++++++++++----------------------
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index ea6e27a..208d2cc 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -287,19 +287,14 @@ class RequestRecorder(object):
                     return
 
             with self.lock:
-                if self.context.is_open():
+                # not if a response, dropped without being closed, is finalized
+                # while this thread is in the middle of writing
+                if self.context.is_open() and not getattr(self.writer, 'writing', False):
                     self.writer.write_request_response_pair(request, response)
         finally:
             self.started_req = False
-            # when called by a finalizer, the pair may not be written yet
-            if hasattr(self.writer, 'in_turn'):
-                self.writer.in_turn(self._close_buffers)
-            else:
-                self._close_buffers()
-
-    def _close_buffers(self):
-        self.request_out.close()
-        self.response_out.close()
+            self.request_out.close()
+            self.response_out.close()
 
     def extract_url(self, data, host, port, default_port,
                     tunnel_host=None, tunnel_port=None):
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index c25a799..8facaf5 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -19,7 +19,6 @@ class BaseWARCWriter(RecordBuilder):
         self.hostname = gethostname()
 
         self.lock = threading.RLock()
-        self.pending = []
         self.writing = False
 
         self.parser = StatusAndHeadersParser([], verify=False)
@@ -37,22 +36,6 @@ class BaseWARCWriter(RecordBuilder):
 
         self._do_write_req_resp(req, resp, params)
 
-    def in_turn(self, func):
-        """ Call func while nothing else uses the output: other threads wait,
-        and what a finalizer writes in the middle of a record comes after it
-        """
-        with self.lock:
-            self.pending.append(func)
-            if self.writing:
-                return
-
-            self.writing = True
-            try:
-                while self.pending:
-                    self.pending.pop(0)()
-            finally:
-                self.writing = False
-
     def write_record(self, record, params=None):  #pragma: no cover
         raise NotImplemented()
 
@@ -167,14 +150,20 @@ class WARCWriter(BaseWARCWriter):
         self.out = filebuf
 
     def write_record(self, record, params=None):
-        self.in_turn(lambda: self._write_warc_record(self.out, record))
+        self._write_records(record)
 
     def _do_write_req_resp(self, req, resp, params):
-        def write_pair():
-            self._write_warc_record(self.out, resp)
-            self._write_warc_record(self.out, req)
+        self._write_records(resp, req)
 
-        self.in_turn(write_pair)
+    def _write_records(self, *records):
+        # other threads wait
+        with self.lock:
+            self.writing = True
+            try:
+                for record in records:
+                    self._write_warc_record(self.out, record)
+            finally:
+                self.writing = False
 
 
 # ============================================================================
-- 
2.43.0


From b311830b606e4bf26a5a90c7f80954f1b349d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 32/44] fix: recompress: a record of which a gzip member holds
 only a part is not taken as complete, the file is decompressed and
 recompressed

---
 warcio/recompressor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index c164827..c52d533 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -25,7 +25,7 @@ class Recompressor(object):
             msg = ''
             with fsspec_open(self.filename, 'rb') as stream:
                 try:
-                    count = self.load_and_write(stream, self.output)
+                    count = self.load_and_write(stream, self.output, verify_complete=True)
                     msg = 'No Errors Found!'
                 except Exception as e:
                     if self.verbose:
@@ -53,7 +53,7 @@ class Recompressor(object):
             print('Recompress Failed: {0} could not be read as a WARC or ARC'.format(self.filename))
             sys.exit(1)
 
-    def load_and_write(self, stream, output):
+    def load_and_write(self, stream, output, verify_complete=False):
         count = 0
         with fsspec_open(output, 'wb') as out:
             writer = WARCWriter(filebuf=out, gzip=True)
@@ -66,6 +66,10 @@ class Recompressor(object):
                 writer.write_record(record)
                 count += 1
 
+                # rest of the record may be in another gzip member
+                if verify_complete and getattr(record.raw_stream, 'limit', 0) > 0:
+                    raise ArchiveLoadFailed('Record {0} is not complete'.format(count))
+
             return count
 
     def decompress_and_recompress(self, stream, output):
-- 
2.43.0


From 0a518cf59f9d02cb72d46226375c7383e6a66664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 33/44] fix: a record cut off right before its HTTP headers is
 a truncated record, it was silently dropped

---
 warcio/recordloader.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 19488ee..a98fb5a 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -210,20 +210,20 @@ class ArcWarcRecordLoader(object):
         if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
-        # request record: parse request
-        if rec_type == 'request':
-            return self.http_req_parser.parse(stream)
+        try:
+            # request record: parse request
+            if rec_type == 'request':
+                return self.http_req_parser.parse(stream)
 
-        elif rec_type == 'revisit':
-            try:
+            # response or revisit record: parse HTTP status and headers!
+            else:
                 return self.http_parser.parse(stream)
-            except EOFError:
-                # empty revisit with no http headers, is ok!
-                return None
 
-        # response record or non-empty revisit: parse HTTP status and headers!
-        else:
-            return self.http_parser.parse(stream)
+        except EOFError:
+            # revisit with no http headers, is ok!
+            # otherwise, the record is cut off before its http headers: it
+            # is still a record, not the end of the file
+            return None
 
     def default_http_headers(self, length, content_type=None):
         headers = []
-- 
2.43.0


From 0c1179544cce75c7ad3beb604a32cb45846c1a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 34/44] fix: an empty gzip member does not hide the records
 after the first one of a later member

---
 warcio/archiveiterator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..a793cfd 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -103,9 +103,10 @@ class ArchiveIterator(six.Iterator):
         """ iterate over each record
         """
         raise_invalid_gzip = False
-        empty_record = False
 
         while True:
+            empty_record = False
+
             try:
                 self.record = self._next_record(self.next_line)
                 if raise_invalid_gzip:
-- 
2.43.0


From 429e7f817960813b06346c189211e43868c8e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 35/44] fix: a record's first line cut off at the end of a gzip
 member is continued in the next member

---
 warcio/archiveiterator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index a793cfd..4835f57 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -122,6 +122,10 @@ class ArchiveIterator(six.Iterator):
             if self.reader.decompressor:
                 # if another gzip member, continue
                 if self.reader.read_next_member():
+                    # a line cut off at the end of a member continues in the next
+                    if self.next_line and not self.next_line.endswith(b'\n'):
+                        self.next_line += self.reader.readline()
+
                     continue
 
                 # if empty record, then we're done
-- 
2.43.0


From 0ae84074300c0f24714acbc72ca55eb3070de100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 36/44] fix: blank lines at the start of a gzip member are not
 a record

---
 warcio/archiveiterator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 4835f57..e9c9f6f 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -259,6 +259,12 @@ class ArchiveIterator(six.Iterator):
         """ Use loader to parse the record from the reader stream
         Supporting warc and arc records
         """
+        # blank lines between records may also be at the start of a gzip member
+        if next_line is None and self.record:
+            next_line = self.reader.readline()
+            while next_line and not next_line.strip():
+                next_line = self.reader.readline()
+
         record = self.loader.parse_record_stream(self.reader,
                                                  next_line,
                                                  self.known_format,
-- 
2.43.0


From 079d234dd1bcc6dcf193f3c773f194bc2e194fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 37/44] fix: recompress: refuse to recompress a file to itself,
 which truncated it

---
 warcio/recompressor.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index c52d533..3f570f9 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -5,6 +5,7 @@ from warcio.warcwriter import WARCWriter
 from warcio.bufferedreaders import DecompressingBufferedReader
 from warcio.utils import fsspec_open
 
+import os
 import tempfile
 import shutil
 import traceback
@@ -20,6 +21,12 @@ class Recompressor(object):
 
     def recompress(self):
         from warcio.cli import main
+
+        # opening the output would truncate the input
+        if self.is_same_file():
+            print('Recompress Failed: {0} can not be recompressed to itself'.format(self.filename))
+            sys.exit(1)
+
         try:
             count = 0
             msg = ''
@@ -53,6 +60,16 @@ class Recompressor(object):
             print('Recompress Failed: {0} could not be read as a WARC or ARC'.format(self.filename))
             sys.exit(1)
 
+    def is_same_file(self):
+        if self.filename == self.output:
+            return True
+
+        try:
+            return os.path.samefile(self.filename, self.output)
+        except (OSError, TypeError, ValueError):
+            # not both existing local files
+            return False
+
     def load_and_write(self, stream, output, verify_complete=False):
         count = 0
         with fsspec_open(output, 'wb') as out:
-- 
2.43.0


From 1f53be1ff285420ff4a8b428f7074fec9e2b7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 38/44] fix: running out of memory while decompressing is not
 taken as the end of the data

---
 warcio/bufferedreaders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index ed6b728..579fb0d 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -150,6 +150,8 @@ class BufferedReader(object):
                 data = self.decompressor.decompress(data)
                 if data:
                     self.raw_pending = b''
+            except MemoryError:
+                raise
             except Exception as e:
                 # if first read attempt, assume non-gzipped stream
                 if self.num_block_read == 0:
-- 
2.43.0


From f0b9928d3e346763d11ff5b5f140947c2ea6163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 39/44] fix: end of a chunk delivered in two reads is not taken
 for a cut off chunk

---
 warcio/bufferedreaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 579fb0d..315fafc 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -408,6 +408,9 @@ class ChunkedDataReader(BufferedReader):
         # if we successfully read a block without running out,
         # it should end in \r\n
         clrf = self.stream.read(2)
+        if len(clrf) == 1:
+            clrf += self.stream.read(1)
+
         if len(clrf) < 2 and b'\r\n'.startswith(clrf):
             return self._cut_off(data)
 
-- 
2.43.0


From fdc9888e6de2065324c4a8e59b6126ba09b01552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 40/44] fix: capture_http: an exchange whose buffer failed is
 not recorded with the failed part missing

---
 warcio/capture_http.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 208d2cc..72ff528 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -250,11 +250,19 @@ class RequestRecorder(object):
 
     def write_request(self, buff):
         if self.started_req:
-            self.request_out.write(buff)
+            self._write(self.request_out, buff)
 
     def write_response(self, buff):
         if self.started_req:
-            self.response_out.write(buff)
+            self._write(self.response_out, buff)
+
+    def _write(self, out, buff):
+        try:
+            out.write(buff)
+        except Exception:
+            # what is missing now would be missing in the record
+            self.started_req = False
+            raise
 
     def _create_record(self, out, record_type):
         length = out.tell()
-- 
2.43.0


From 0ec42d4a21a3f046f353d9bff0a8e05ea20d7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 41/44] fix: length of an ARC file header whose version lines
 are not ascii

---
 warcio/recordloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index a98fb5a..fe8bde9 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -325,8 +325,9 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
+            # length in bytes, the lines may not be ascii
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From 4db7e333fea7590134ffe3a5714c094c52dfa7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:49 +0000
Subject: [PATCH 42/44] fix: writing a revisit record with http headers
 restores its original stream

---
 warcio/warcwriter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 8facaf5..e4af757 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -110,14 +110,15 @@ class BaseWARCWriter(RecordBuilder):
         if has_http_headers:
             out.write(record.http_headers.headers_buff)
 
-        if not http_headers_only:
-            try:
+        try:
+            if not http_headers_only:
                 for buf in self._iter_stream(record.raw_stream):
                     out.write(buf)
-            finally:
-                if hasattr(record, '_orig_stream'):
-                    record.raw_stream.close()
-                    record.raw_stream = record._orig_stream
+        finally:
+            if hasattr(record, '_orig_stream'):
+                record.raw_stream.close()
+                record.raw_stream = record._orig_stream
+                del record._orig_stream
 
         # add two lines
         out.write(b'\r\n\r\n')
-- 
2.43.0


From 4ad4c60d75d7ad7a53ff8ec7d708edb326acb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 43/44] fix: extract also outputs an empty HTTP header block

---
 warcio/extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/extractor.py b/warcio/extractor.py
index 9d37e4f..48248eb 100644
--- a/warcio/extractor.py
+++ b/warcio/extractor.py
@@ -31,7 +31,8 @@ class Extractor(object):
                     buf = stream.read(self.READ_SIZE)
             else:
                 stdout_raw.write(record.rec_headers.to_bytes())
-                if record.http_headers:
+                # also an empty header block
+                if record.http_headers is not None:
                     stdout_raw.write(record.http_headers.to_bytes())
                 if not headers_only:
                     buf = record.raw_stream.read(self.READ_SIZE)
-- 
2.43.0


From 9faf3241178ae170a5fa525c097f2403e4cd15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 44/44] fix: generated HTTP headers do not count a blank line
 already read

---
 warcio/recordloader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index fe8bde9..9afcd9f 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -168,10 +168,11 @@ class ArcWarcRecordLoader(object):
 
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
-            http_headers = self.default_http_headers(length, content_type)
-            http_headers.loaded_buff = b''
-            if length is not None:
+            # an empty header block was read already
+            if length is not None and http_headers is None:
                 payload_length = length
+            http_headers = self.default_http_headers(payload_length, content_type)
+            http_headers.loaded_buff = b''
 
         # without parsing the http headers, it is not known where the payload begins
         if is_verifying and not (no_record_parse and rec_type in self.HTTP_RECORDS):
-- 
2.43.0

