From a2b2780b08f7e8ccea32ae6047e9a1aeb7b113d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 01/48] fix: searches asking for as many results as there are
 entries, or more

HammingDb.search() raised whenever n_results was at least the number of
entries (including any search of an empty database), and random_search() on
an empty database never returned.
---
 zounds/index/hammingdb.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 4576b7f..5408e81 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -158,6 +158,8 @@ class HammingDb(object):
     def _random_code(self):
         with self.env.begin() as txn:
             with txn.cursor(self.index) as cursor:
+                if not cursor.first():
+                    raise ValueError('the database is empty')
                 code = None
                 while not code:
                     if cursor.set_range(self._new_id()):
@@ -181,6 +183,9 @@ class HammingDb(object):
 
         codes = self._codes.logical_data['code']
 
+        if not len(codes):
+            return
+
         if codes.ndim == 1:
             codes = codes[..., None]
 
@@ -194,10 +199,14 @@ class HammingDb(object):
                 (codes[i: i + chunksize] for i in
                  range(0, n_codes, chunksize))))
 
+        # asking for more results than there are entries returns all of them
+        n_results = min(n_results, len(scores))
+
         # argpartition will ensure that the lowest scores will all be
         # withing the first n_results elements, but makes no guarantees
         # about the ordering *within* n_results
-        partitioned_indices = np.argpartition(scores, n_results)[:n_results]
+        partitioned_indices = np.argpartition(
+            scores, max(0, n_results - 1))[:n_results]
 
         if sort:
             # since argpartition doesn't guarantee that the results are
-- 
2.43.0


From 7b8ccea40be343e9732b3b53b4430a9e94f16703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 02/48] fix: HammingDb shared by several threads, and failed
 appends

Appends and searches shared one scratch buffer for codes, so that a search
running while another thread appended could use, or store, the wrong code.
Two threads could add one entry to the in-memory store twice.  An entry was
added to the in-memory store before its transaction committed, so that a
failed commit left an entry behind that every later search tripped over.
---
 zounds/index/hammingdb.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 5408e81..f77e7ce 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -5,6 +5,7 @@ from multiprocessing.dummy import Pool as ThreadPool
 from multiprocessing import cpu_count
 import os
 import binascii
+import threading
 
 
 class HammingDb(object):
@@ -45,8 +46,8 @@ class HammingDb(object):
 
         self.index = self.env.open_db(b'index')
         self._append_buffer = self._recarray(1)
-        self._code_bytearray = bytearray(b'a' * self.code_size)
-        self._code_buffer = np.frombuffer(self._code_bytearray, dtype=np.uint64)
+        # guards the in-memory store, which may be shared by several threads
+        self._lock = threading.RLock()
         self._codes = None
         self._ids = set()
         self._catch_up_on_in_memory_store()
@@ -111,8 +112,7 @@ class HammingDb(object):
         self._codes = Growable(self._recarray(initial_size))
 
     def _np_code(self, code):
-        self._code_bytearray[:] = code
-        return self._code_buffer
+        return np.frombuffer(bytes(code), dtype=np.uint64)
 
     def _validate_code_size(self, code):
         code_len = len(code)
@@ -125,11 +125,14 @@ class HammingDb(object):
         if self.writeonly:
             return
 
-        arr = self._append_buffer
-        arr[0]['id'] = _id
-        arr[0]['code'] = self._np_code(code)
-        self._codes.append(arr)
-        self._ids.add(_id)
+        with self._lock:
+            if _id in self._ids:
+                return
+            arr = self._append_buffer
+            arr[0]['id'] = _id
+            arr[0]['code'] = self._np_code(code)
+            self._codes.append(arr)
+            self._ids.add(_id)
 
     def _check_for_external_modifications(self):
         if self.__len__() != self._codes.logical_size:
@@ -153,7 +156,9 @@ class HammingDb(object):
             except AttributeError:
                 pass
             txn.put(_id, code + data, db=self.index)
-            self._add_code(_id, code)
+
+        # the in-memory store must only ever reflect committed data
+        self._add_code(_id, code)
 
     def _random_code(self):
         with self.env.begin() as txn:
@@ -181,7 +186,11 @@ class HammingDb(object):
         self._check_for_external_modifications()
         query = self._np_code(code)
 
-        codes = self._codes.logical_data['code']
+        # appends made by other threads from here on aren't visible to us
+        with self._lock:
+            logical_data = self._codes.logical_data
+
+        codes = logical_data['code']
 
         if not len(codes):
             return
@@ -220,7 +229,7 @@ class HammingDb(object):
             # particular order
             indices = partitioned_indices
 
-        nearest = self._codes.logical_data[indices]['id']
+        nearest = logical_data[indices]['id']
 
         with self.env.begin() as txn:
             for _id in nearest:
-- 
2.43.0


From 25fc89edcfdb1b95aff39b33b7872898b4010aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 03/48] fix: two processes creating one Hamming database at the
 same time

Both stored their code size, so that with different ones the second broke the
first; and creating the directory could fail if the other was faster.
---
 zounds/index/hammingdb.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index f77e7ce..853f9bb 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -14,8 +14,7 @@ class HammingDb(object):
 
         self.writeonly = writeonly
 
-        if not os.path.exists(path):
-            os.makedirs(path)
+        os.makedirs(path, exist_ok=True)
 
         self.path = path
         self.env = lmdb.open(
@@ -41,8 +40,20 @@ class HammingDb(object):
                     'You must supply a code size for an uninitialized database')
             if code_size % 8:
                 raise ValueError('code_size must be a multiple of 8')
-            self.set_metadata(b'codesize', str(code_size).encode())
-            self.code_size = code_size
+            # another process may be creating the same database right now, in
+            # which case the code size that was stored first is binding
+            with self.env.begin(write=True) as txn:
+                txn.put(
+                    b'codesize',
+                    str(code_size).encode(),
+                    overwrite=False,
+                    db=self.metadata)
+            self.code_size = int(self.get_metadata(b'codesize'))
+            if code_size != self.code_size:
+                raise ValueError(
+                    'Database was just initialized with code size '
+                    '{self.code_size}, but {code_size} was passed to __init__'
+                        .format(**locals()))
 
         self.index = self.env.open_db(b'index')
         self._append_buffer = self._recarray(1)
-- 
2.43.0


From 141d89d1e62f514193141978316534665d05e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 04/48] fix: check the size of the encoded code in
 HammingDb.append

A text code of the right length whose encoding is longer passed the check.
---
 zounds/index/hammingdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 853f9bb..aa20af5 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -153,15 +153,15 @@ class HammingDb(object):
         return binascii.hexlify(os.urandom(16))
 
     def append(self, code, data):
+        try:
+            code = code.encode()
+        except AttributeError:
+            pass
         self._validate_code_size(code)
         self._initialize_in_memory_store()
 
         with self.env.begin(write=True) as txn:
             _id = self._new_id()
-            try:
-                code = code.encode()
-            except AttributeError:
-                pass
             try:
                 data = data.encode()
             except AttributeError:
-- 
2.43.0


From b733f65b8743c19b3c98b3e4b0061119d8d9ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 05/48] fix: exactly-once indexing of documents by a listening
 HammingIndex

- restarting on an existing index raised, because the position in the event
  log was looked up with a text key
- every live event raised, because its timestamp is text
- an empty event log was mistaken for a missing one
- an event arriving while the log was being read was indexed twice
- a crash while a document was being added lost the rest of its codes: the
  codes and the position in the log are now stored atomically
- adding a document by hand reset the position in the log
---
 zounds/index/hammingdb.py | 37 +++++++++++++++++++++++++------------
 zounds/index/index.py     | 38 +++++++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index aa20af5..286afa2 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -153,23 +153,36 @@ class HammingDb(object):
         return binascii.hexlify(os.urandom(16))
 
     def append(self, code, data):
-        try:
-            code = code.encode()
-        except AttributeError:
-            pass
-        self._validate_code_size(code)
+        self.append_all([(code, data)])
+
+    def append_all(self, items, metadata=None):
+        """
+        Append any number of (code, data) pairs, and set any number of metadata
+        values, atomically
+        """
         self._initialize_in_memory_store()
+        appended = []
 
         with self.env.begin(write=True) as txn:
-            _id = self._new_id()
-            try:
-                data = data.encode()
-            except AttributeError:
-                pass
-            txn.put(_id, code + data, db=self.index)
+            for code, data in items:
+                try:
+                    code = code.encode()
+                except AttributeError:
+                    pass
+                self._validate_code_size(code)
+                _id = self._new_id()
+                try:
+                    data = data.encode()
+                except AttributeError:
+                    pass
+                txn.put(_id, code + data, db=self.index)
+                appended.append((_id, code))
+            for key, value in (metadata or {}).items():
+                txn.put(key, value, db=self.metadata)
 
         # the in-memory store must only ever reflect committed data
-        self._add_code(_id, code)
+        for _id, code in appended:
+            self._add_code(_id, code)
 
     def _random_code(self):
         with self.env.begin() as txn:
diff --git a/zounds/index/index.py b/zounds/index/index.py
index 9addb8d..01ebc26 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -127,6 +127,8 @@ class HammingIndex(object):
         except ValueError:
             arr = feature
 
+        items = []
+
         # extract codes and timeslices from the feature
         for ts, data in arr.iter_slices():
             code = self.encode_query(data)
@@ -136,18 +138,25 @@ class HammingIndex(object):
             extra_data = self._collect_extra_data(_id, ts)
             if extra_data:
                 encoded_ts['extra_data'] = extra_data
-            self._init_hamming_db(code)
-            self.hamming_db.append(code, json.dumps(encoded_ts))
-            self.hamming_db.set_metadata(b'timestamp', timestamp)
+            items.append((code, json.dumps(encoded_ts)))
+
+        if not items:
+            return
+
+        # the codes and the position in the event log are stored together, so
+        # that a document is never partially indexed, or indexed again
+        self._init_hamming_db(items[0][0])
+        self.hamming_db.append_all(
+            items, {b'timestamp': timestamp} if timestamp else None)
 
     def _listen(self, raise_when_empty=False):
 
         if self.hamming_db is not None:
-            last_timestamp = self.hamming_db.get_metadata('timestamp') or ''
+            last_timestamp = self.hamming_db.get_metadata(b'timestamp') or b''
         else:
-            last_timestamp = ''
+            last_timestamp = b''
 
-        if not self.event_log:
+        if self.event_log is None:
             raise ValueError(
                 '{self.document} must have an event log configured'
                     .format(**locals()))
@@ -155,8 +164,22 @@ class HammingIndex(object):
         subscription = self.event_log.subscribe(
             last_id=last_timestamp, raise_when_empty=raise_when_empty)
 
+        processed = set()
+
         for timestamp, data in subscription:
 
+            # past events have binary timestamps, live ones have text timestamps
+            try:
+                timestamp = timestamp.encode()
+            except AttributeError:
+                pass
+
+            # an event that arrives while past events are being read is both
+            # part of the log, and delivered live
+            if timestamp in processed:
+                continue
+            processed.add(timestamp)
+
             # parse the data from the event stream
             data = json.loads(data)
             _id, name, version = data['_id'], data['name'], data['version']
@@ -165,7 +188,8 @@ class HammingIndex(object):
             if name != self.feature.key or version != self.feature.version:
                 continue
 
-            self.add(_id, timestamp)
+            last_timestamp = max(last_timestamp, timestamp)
+            self.add(_id, last_timestamp)
 
     def _parse_result(self, result):
         d = json.loads(result)
-- 
2.43.0


From 9c0061d121fd4e03fb71579ab715f97f317f87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 06/48] fix: HammingIndex ignored db_size_bytes

---
 zounds/index/index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 01ebc26..b6f0e7e 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -52,7 +52,10 @@ class HammingIndex(object):
 
         try:
             self.hamming_db = HammingDb(
-                self.hamming_db_path, code_size=None, writeonly=self.writeonly)
+                self.hamming_db_path,
+                map_size=self.db_size_bytes,
+                code_size=None,
+                writeonly=self.writeonly)
         except ValueError:
             self.hamming_db = None
 
@@ -101,7 +104,10 @@ class HammingIndex(object):
             return
         code_size = len(code) if code else None
         self.hamming_db = HammingDb(
-            self.hamming_db_path, code_size=code_size, writeonly=self.writeonly)
+            self.hamming_db_path,
+            map_size=self.db_size_bytes,
+            code_size=code_size,
+            writeonly=self.writeonly)
 
     def _synchronously_process_events(self):
         self._listen(raise_when_empty=True)
-- 
2.43.0


From bf2916ff1b77217379fd2304f64c914923025877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 07/48] fix: windows must not depend on how a signal is divided
 into chunks

Windows drifted at chunk boundaries when the step is longer than the window,
and whether a window is added for trailing samples (or none at all) depended on
where the last chunk began.
---
 zounds/nputil/npx.py              | 11 ++++++++++-
 zounds/spectral/sliding_window.py |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index e6c18da..a365382 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -116,8 +116,17 @@ def _wcut(l, windowsize, stepsize):
     Returns
         The length the input array should be so that leftover samples are ignored
     """
+    if stepsize > windowsize:
+        # there are gaps between windows.  don't consume a window until all of
+        # the gap that follows is available, too, so that leftover samples
+        # always begin at the start of the next window
+        nsteps = l // stepsize
+        if not nsteps:
+            return 0, 0
+        return ((nsteps - 1) * stepsize) + windowsize, nsteps * stepsize
+
     end = l - windowsize
-    if l <= windowsize:
+    if l < windowsize:
         return 0, 0
     elif end % stepsize:
         l = windowsize + ((end // stepsize) * stepsize)
diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index c63776e..f08d07d 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -189,6 +189,10 @@ class SlidingWindow(Node):
             self._cache = self._cache.concatenate(data)
 
     def _dequeue(self):
+        if self._cache is None or not len(self._cache):
+            # every sample has already been part of a window
+            raise NotEnoughData()
+
         duration = TimeSlice(duration=self._scheme.duration)
         frequency = TimeSlice(duration=self._scheme.frequency)
         leftover, arr = self._cache.sliding_window_with_leftovers(
-- 
2.43.0


From 745d190e6eeee454d366fb35021bd3ed16c52d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 08/48] fix: audio must decode to the same samples however its
 bytes arrive

MemoryBuffer shifted all positions when it discarded data that had already
been read, while SoundFile seeks to absolute positions, so uncompressed files
larger than 10MB silently lost samples when read in large chunks.  Compressed
files were decoded before all of their data had arrived, which libsndfile
can't do reliably: samples were lost or an error was raised, depending on how
the file was divided into chunks, and a short first chunk raised an error for
every format.
---
 zounds/soundfile/audiostream.py | 126 +++++++++++++++++++++++---------
 zounds/soundfile/ogg_vorbis.py  |  54 +++++++++-----
 2 files changed, 127 insertions(+), 53 deletions(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 96b598f..e0d0342 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from os import SEEK_END
+from os import SEEK_CUR, SEEK_END, SEEK_SET
 from soundfile import SoundFile
 from zounds.timeseries import audio_sample_rate, AudioSamples
 from .byte_depth import chunk_size_samples
@@ -70,6 +70,8 @@ class AudioStream(Node):
         self._buf = None
         self._sf = None
         self._chunk_size_samples = None
+        # False if decoding has to wait until all of the data has arrived
+        self._incremental = True
         self._cache = b''
 
     def _enqueue(self, data, pusher):
@@ -97,15 +99,26 @@ class AudioStream(Node):
 
         self._buf.write(b)
 
-        if self._sf is None:
-            self._sf = SoundFile(self._buf)
+        if self._sf is None and self._incremental:
+            sf = open_partial(self._buf)
+            if sf is not None:
+                self._incremental = is_incremental(sf)
+                if self._incremental:
+                    self._open(sf)
 
-        if self._chunk_size_samples is None:
-            self._chunk_size_samples = chunk_size_samples(self._sf, b)
+        if self._sf is not None:
+            yield self._get_samples()
 
-        yield self._get_samples()
+    def _open(self, sf):
+        self._sf = sf
+        self._chunk_size_samples = chunk_size_samples(sf, self._buf)
 
     def _last_chunk(self):
+        if self._sf is None and self._buf is not None:
+            self._buf.seek(0)
+            self._open(SoundFile(self._buf))
+            yield self._get_samples()
+
         samples = self._get_samples()
         while samples.size:
             yield samples
@@ -117,11 +130,9 @@ class MemoryBuffer(object):
     This class is the implementation of the virtual io interface required by
     PySoundfile/libsndfile.
 
-    Some of the stateful/hacky things in this class (see KLUDGE note below)
-    could be avoided if this class had the following modifications:
-        - it maintains its own position
-        - it maintains the span of its buffer/BytesIO instance
-        -
+    Data is always appended at the end of the buffer, independent of the
+    current (read) position.  Positions are absolute, i.e., they don't change
+    when data that has already been read is discarded
     """
 
     def __init__(self, content_length, max_size=10 * 1024 * 1024):
@@ -129,15 +140,21 @@ class MemoryBuffer(object):
         self._content_length = content_length
         self._buf = BytesIO()
         self._max_size = max_size
-        self.tell = self._tell
+        # the absolute position of the first byte still in the buffer
+        self._start = 0
+        # the absolute position of the next byte to be read
+        self._position = 0
 
-        self._total_bytes_written = 0
-        self._total_bytes_read = 0
+    def __len__(self):
+        """
+        The total number of bytes that have been written
+        """
+        return self._start + self._buf.getbuffer().nbytes
 
     def read(self, count):
-        if count == -1:
-            return self._buf.read()
-        data = self._buf.read(count)
+        self._buf.seek(max(0, self._position - self._start))
+        data = self._buf.read(None if count == -1 else count)
+        self._position += len(data)
         return data
 
     def readinto(self, buf):
@@ -147,30 +164,67 @@ class MemoryBuffer(object):
         return ld
 
     def write(self, data):
-        read_pos = self._buf.tell()
-        if read_pos > self._max_size:
-            new_buf = BytesIO()
-            new_buf.write(self._buf.read())
-            self._buf = new_buf
-            read_pos = 0
-        self._buf.seek(0, 2)
+        n_read = min(self._position, len(self)) - self._start
+        if n_read > self._max_size:
+            self._buf.seek(n_read)
+            self._buf = BytesIO(self._buf.read())
+            self._start += n_read
+        self._buf.seek(0, SEEK_END)
         self._buf.write(data)
-        self._buf.seek(read_pos)
         return len(data)
 
-    def _tell(self):
-        return self._buf.tell()
-
-    def _tell_end(self):
-        self.tell = self._tell
-        return self._content_length
+    def tell(self):
+        return self._position
 
-    def seek(self, offset, whence):
+    def seek(self, offset, whence=SEEK_SET):
         if whence == SEEK_END:
-            # KLUDGE: PySoundfile no longer supports __len__, which means that
-            # this stateful garbage is required.
-            self.tell = self._tell_end
-        self._buf.seek(offset, whence)
+            # the end of the entire stream, and not just of the portion that
+            # has already been received
+            offset += self._content_length
+        elif whence == SEEK_CUR:
+            offset += self._position
+        if offset < 0:
+            raise ValueError('negative seek value {offset}'.format(**locals()))
+        self._position = offset
+        return self._position
 
     def flush(self):
         self._buf.flush()
+
+
+# sound file formats that may be decoded piece by piece, before all of the data
+# has arrived, as long as samples are uncompressed
+_INCREMENTAL_FORMATS = ('WAV', 'WAVEX', 'AIFF', 'AU', 'RF64', 'W64', 'CAF')
+_INCREMENTAL_SUBTYPES = (
+    'PCM_S8', 'PCM_U8', 'PCM_16', 'PCM_24', 'PCM_32', 'FLOAT', 'DOUBLE')
+_MIN_HEADER_BYTES = 4096
+
+
+def open_partial(buf):
+    """
+    Open a sound file that hasn't necessarily been received completely
+
+    Args:
+        buf (MemoryBuffer): the portion of the file received so far
+
+    Returns:
+        A :class:`SoundFile` instance, or None if there isn't enough data yet
+    """
+    if len(buf) < min(_MIN_HEADER_BYTES, buf._content_length):
+        return None
+    buf.seek(0)
+    try:
+        return SoundFile(buf)
+    except RuntimeError:
+        # the header might not be complete yet
+        return None
+
+
+def is_incremental(sf):
+    """
+    Is it possible to decode this sound file before all data has arrived?
+    libsndfile can't be relied upon to pick up where it left off in compressed
+    files, once it has run out of data
+    """
+    return sf.format in _INCREMENTAL_FORMATS \
+        and sf.subtype in _INCREMENTAL_SUBTYPES
diff --git a/zounds/soundfile/ogg_vorbis.py b/zounds/soundfile/ogg_vorbis.py
index fa7c83d..56b6b73 100644
--- a/zounds/soundfile/ogg_vorbis.py
+++ b/zounds/soundfile/ogg_vorbis.py
@@ -1,6 +1,7 @@
 
-from featureflow import IdentityEncoder, Node, Decoder, Feature
-from .audiostream import MemoryBuffer
+from featureflow import \
+    IdentityEncoder, Node, Decoder, Feature, NotEnoughData
+from .audiostream import MemoryBuffer, is_incremental, open_partial
 from zounds.timeseries import audio_sample_rate, TimeSlice, AudioSamples
 from soundfile import *
 from .byte_depth import chunk_size_samples
@@ -147,38 +148,57 @@ class OggVorbis(Node):
         self._out_buf = None
         self._out_sf = None
         self._already_ogg = None
+        # False if decoding has to wait until all of the data has arrived
+        self._incremental = True
         self._chunk_size_samples = None
 
     def _enqueue(self, data, pusher):
         if self._in_buf is None:
             self._in_buf = MemoryBuffer(data.total_length)
-            self._in_buf.write(data)
-            self._in_sf = SoundFile(self._in_buf)
-            self._already_ogg = 'OGG' in self._in_sf.format
+        self._in_buf.write(data)
 
-        if not self._chunk_size_samples:
-            self._chunk_size_samples = chunk_size_samples(self._in_sf, data)
+    def _open(self):
+        if self._finalized:
+            self._in_buf.seek(0)
+            sf = SoundFile(self._in_buf)
+        else:
+            sf = open_partial(self._in_buf) if self._incremental else None
+            if sf is None:
+                raise NotEnoughData()
 
-        if self._already_ogg:
-            super(OggVorbis, self)._enqueue(data, pusher)
-            return
+        self._already_ogg = 'OGG' in sf.format
+        self._incremental = self._already_ogg or is_incremental(sf)
 
-        if self._out_buf is None:
-            self._out_buf = MemoryBuffer(data.total_length)
+        if self._already_ogg:
+            self._in_buf.seek(0)
+        elif not self._incremental and not self._finalized:
+            # wait until all of the data has arrived
+            raise NotEnoughData()
+        else:
+            self._chunk_size_samples = chunk_size_samples(sf, self._in_buf)
+            self._out_buf = MemoryBuffer(self._in_buf._content_length)
             self._out_sf = SoundFile(
                     self._out_buf,
                     format='OGG',
                     subtype='VORBIS',
                     mode='w',
-                    samplerate=self._in_sf.samplerate,
-                    channels=self._in_sf.channels)
-        else:
-            self._in_buf.write(data)
+                    samplerate=sf.samplerate,
+                    channels=sf.channels)
+
+        self._in_sf = sf
 
     def _dequeue(self):
+        if self._in_buf is None:
+            raise NotEnoughData()
+
+        if self._in_sf is None:
+            self._open()
 
         if self._already_ogg:
-            return super(OggVorbis, self)._dequeue()
+            data = self._in_buf.read(-1)
+            if not data:
+                raise NotEnoughData()
+            return data
 
         samples = self._in_sf.read(self._chunk_size_samples)
         factor = 20
-- 
2.43.0


From 51eb7e3b2f3054381730abec13d5dc0332bf8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 09/48] fix: keep all of a compressed sound file until it is
 decoded

Opening a partially received file may leave the read position anywhere; data
before it must not be discarded when decoding starts over later.
---
 zounds/soundfile/audiostream.py | 8 ++++++--
 zounds/soundfile/ogg_vorbis.py  | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index e0d0342..e88ae48 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -214,10 +214,14 @@ def open_partial(buf):
         return None
     buf.seek(0)
     try:
-        return SoundFile(buf)
+        sf = SoundFile(buf)
     except RuntimeError:
         # the header might not be complete yet
-        return None
+        sf = None
+    if sf is None or not is_incremental(sf):
+        # all of the data will be needed again later
+        buf.seek(0)
+    return sf
 
 
 def is_incremental(sf):
diff --git a/zounds/soundfile/ogg_vorbis.py b/zounds/soundfile/ogg_vorbis.py
index 56b6b73..465940d 100644
--- a/zounds/soundfile/ogg_vorbis.py
+++ b/zounds/soundfile/ogg_vorbis.py
@@ -170,6 +170,7 @@ class OggVorbis(Node):
         self._incremental = self._already_ogg or is_incremental(sf)
 
         if self._already_ogg:
+            # pass along everything that has arrived so far
             self._in_buf.seek(0)
         elif not self._incremental and not self._finalized:
             # wait until all of the data has arrived
-- 
2.43.0


From 7de1c69963555a76ab4a05471928e0b94936c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 10/48] fix: slices of stored ogg audio must hold the samples
 at exactly that time

Samples read right after seeking in an ogg file were wrong: the first block
lacks the one it overlaps with, and positions in the last page are off.
Threads sharing an instance could read from each other's position, and
iterating over chunks drifted away from whole seconds, skipping samples.
---
 zounds/soundfile/ogg_vorbis.py | 58 +++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/zounds/soundfile/ogg_vorbis.py b/zounds/soundfile/ogg_vorbis.py
index 465940d..86c09a7 100644
--- a/zounds/soundfile/ogg_vorbis.py
+++ b/zounds/soundfile/ogg_vorbis.py
@@ -1,15 +1,24 @@
 
+import threading
 from featureflow import \
     IdentityEncoder, Node, Decoder, Feature, NotEnoughData
 from .audiostream import MemoryBuffer, is_incremental, open_partial
-from zounds.timeseries import audio_sample_rate, TimeSlice, AudioSamples
+from zounds.timeseries import audio_sample_rate, AudioSamples
 from soundfile import *
 from .byte_depth import chunk_size_samples
 from zounds.timeseries import Picoseconds, Seconds
 
 
 class OggVorbisWrapper(object):
+    # the first block that is decoded after seeking may be wrong, since the
+    # block it overlaps with is missing
+    _PREROLL_SAMPLES = 4096
+    # positions in the very last page of an ogg file may be wrong altogether,
+    # a page can't contain any more samples than this
+    _MAX_PAGE_SAMPLES = 255 * 1024
+
     def __init__(self, flo):
+        self._lock = threading.Lock()
         self._flo = flo
         self._sf = SoundFile(self._flo)
         self._freq = Picoseconds(int(1e12)) / self._sf.samplerate
@@ -31,28 +40,47 @@ class OggVorbisWrapper(object):
             return -1
         return int(duration / self._freq)
 
-    def __getitem__(self, timeslice):
+    def _read(self, start_sample, n_samples=-1):
+        """
+        Read n_samples, or all of the remaining samples, if n_samples is
+        negative, beginning at start_sample.
+
+        Samples read immediately after seeking can't be trusted, so begin to
+        read a bit earlier, and discard everything that wasn't asked for
+        """
+        total_samples = len(self._sf)
+        preroll = self._PREROLL_SAMPLES
+        if start_sample > total_samples - self._MAX_PAGE_SAMPLES:
+            preroll = self._MAX_PAGE_SAMPLES
+        seek_to = min(max(0, start_sample - preroll), total_samples)
+        skip = start_sample - seek_to
+
+        # the position is shared by everyone using this instance
+        with self._lock:
+            self._sf.seek(seek_to)
+            samples = self._sf.read(
+                -1 if n_samples < 0 else skip + n_samples)
         sr = audio_sample_rate(self.samplerate)
+        return AudioSamples(samples[skip:], sr)
 
+    def __getitem__(self, timeslice):
         if timeslice == slice(None):
-            self._sf.seek(0)
-            return AudioSamples(self._sf.read(len(self._sf)), sr)
+            return self._read(0)
 
         start_sample = int(timeslice.start / self._freq)
         n_samples = self._n_samples(timeslice.duration)
-
-        self._sf.seek(start_sample)
-        return AudioSamples(self._sf.read(n_samples), sr)
+        return self._read(start_sample, n_samples)
 
     def iter_chunks(self):
-        chunksize = Seconds(1)
-        ts = TimeSlice(chunksize)
-        sl = self[ts]
-        yield sl
-        while len(sl) >= self._n_samples(chunksize):
-            ts += chunksize
-            sl = self[ts]
-            yield sl
+        # count samples instead of adding up durations, which are rounded
+        chunksize = self._n_samples(Seconds(1))
+        start_sample = 0
+        samples = self._read(start_sample, chunksize)
+        yield samples
+        while len(samples) >= chunksize:
+            start_sample += chunksize
+            samples = self._read(start_sample, chunksize)
+            yield samples
 
 
 class OggVorbisEncoder(IdentityEncoder):
-- 
2.43.0


From e63bc1787bf408b50efaabc281a6bb45c057941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 11/48] fix: resampling must not depend on how a signal is
 divided into chunks

Each chunk was assumed to yield its length times the ratio of the two rates,
regardless of how many samples the converter really produced, which dropped
samples or inserted silence at chunk boundaries, and the delay of the converter
was filled with silence at the start, cutting off the end of the signal.
---
 zounds/soundfile/functional.py |   3 +-
 zounds/soundfile/resample.py   | 129 ++++++++++++++++++++-------------
 2 files changed, 80 insertions(+), 52 deletions(-)

diff --git a/zounds/soundfile/functional.py b/zounds/soundfile/functional.py
index 63c15bf..5f3ffd3 100644
--- a/zounds/soundfile/functional.py
+++ b/zounds/soundfile/functional.py
@@ -7,5 +7,6 @@ def resample(samples, new_sample_rate):
     if new_sample_rate == samples.samplerate:
         return samples
     rs = Resampler(new_sample_rate)
-    new_samples = np.concatenate(list(rs._process(samples)))
+    new_samples = np.concatenate(
+        list(rs._process(samples)) + list(rs._last_chunk()))
     return AudioSamples(new_samples, new_sample_rate)
diff --git a/zounds/soundfile/resample.py b/zounds/soundfile/resample.py
index 26a7907..2eb7ba0 100644
--- a/zounds/soundfile/resample.py
+++ b/zounds/soundfile/resample.py
@@ -4,8 +4,7 @@ from ctypes import *
 
 import numpy as np
 
-from zounds.timeseries import SR44100, AudioSamples, Seconds
-from zounds.core import ArrayWithUnits
+from zounds.timeseries import SR44100, AudioSamples
 
 try:
     libsamplerate = CDLL('libsamplerate.so')
@@ -78,15 +77,20 @@ class Resample(object):
         self._state = libsamplerate.src_new(
             self.c_int_converter_type, self.c_int_channels, self.error)
 
+    @property
+    def ratio(self):
+        return self._ratio
+
     def _prepare_input(self, insamples):
-        # ensure that the input is float data
-        if np.float32 != insamples.dtype:
-            return insamples.astype(np.float32)
-        return insamples
+        # ensure that the input is contiguous float data
+        return np.ascontiguousarray(insamples, dtype=np.float32)
 
     def _output_buffer(self, insamples):
-        outsize = (int(np.round(len(insamples) * self._ratio)), self.nchannels)
-        return np.zeros(outsize, dtype=np.float32).squeeze()
+        # The number of samples that libsamplerate returns varies from call to
+        # call, so leave it some room.  It's called again if there's more.
+        size = int(np.ceil(len(insamples) * self._ratio)) + 64
+        shape = (size,) if self.nchannels == 1 else (size, self.nchannels)
+        return np.zeros(shape, dtype=np.float32)
 
     def _check_for_error(self, return_code):
         if return_code:
@@ -95,30 +99,44 @@ class Resample(object):
                     .format(**locals()))
 
     def __call__(self, insamples, end_of_input=False):
-
+        """
+        Feed samples to the converter, and return all the samples it's able to
+        produce so far.  The converter holds on to some of its most recent input
+        until it knows what comes next, or until end_of_input is true.
+        """
         normalized_insamples = self._prepare_input(insamples)
-        outsamples = self._output_buffer(normalized_insamples)
-
-        insamples_ptr = normalized_insamples.ctypes.data_as(POINTER(c_float))
-        outsamples_ptr = outsamples.ctypes.data_as(POINTER(c_float))
-
-        sd = SRC_DATA(
-            # a pointer to the input samples
-            data_in=insamples_ptr,
-            # a pointer to the output buffer
-            data_out=outsamples_ptr,
-            # number of input samples
-            input_frames=len(normalized_insamples),
-            # number of output samples
-            output_frames=len(outsamples),
-            # NOT the end of input, i.e., there is more data to process
-            end_of_input=int(end_of_input),
-            # the conversion ratio
-            src_ratio=self._ratio)
-        sd_ptr = pointer(sd)
-        rv = libsamplerate.src_process(self._state, sd_ptr)
-        self._check_for_error(rv)
-        return outsamples
+        outputs = []
+
+        while True:
+            outsamples = self._output_buffer(normalized_insamples)
+
+            insamples_ptr = normalized_insamples.ctypes.data_as(
+                POINTER(c_float))
+            outsamples_ptr = outsamples.ctypes.data_as(POINTER(c_float))
+
+            sd = SRC_DATA(
+                # a pointer to the input samples
+                data_in=insamples_ptr,
+                # a pointer to the output buffer
+                data_out=outsamples_ptr,
+                # number of input samples
+                input_frames=len(normalized_insamples),
+                # number of output samples
+                output_frames=len(outsamples),
+                # NOT the end of input, i.e., there is more data to process
+                end_of_input=int(end_of_input),
+                # the conversion ratio
+                src_ratio=self._ratio)
+            rv = libsamplerate.src_process(self._state, byref(sd))
+            self._check_for_error(rv)
+
+            generated = sd.output_frames_gen
+            outputs.append(outsamples[:generated])
+            normalized_insamples = normalized_insamples[sd.input_frames_used:]
+
+            # when the output buffer is full, there might be more to come
+            if len(normalized_insamples) == 0 and generated < len(outsamples):
+                return np.concatenate(outputs)
 
 
 class Resampler(Node):
@@ -186,33 +204,42 @@ class Resampler(Node):
         super(Resampler, self).__init__(needs=needs)
         self._samplerate = samplerate or SR44100()
         self._resample = None
-
-    def _noop(self, data, finalized):
-        return data
+        self._n_input = 0
+        self._n_output = 0
 
     def _process(self, data):
         sr = data.samples_per_second
+        target_sr = self._samplerate.samples_per_second
+
+        if target_sr == sr:
+            yield data
+            return
 
         if self._resample is None:
-            target_sr = self._samplerate.samples_per_second
             self._resample = Resample(
                 sr,
                 target_sr,
                 1 if len(data.shape) == 1 else data.shape[1])
 
-            if target_sr != sr:
-                self._rs = self._resample
-                # KLUDGE: The following line seems to solve a bug whereby 
-                # libsamplerate doesn't generate enough samples the first time
-                # src_process is called. We're calling it once here, so the "real"
-                # output will come out click-free
-                silence = AudioSamples.silence(
-                    self._samplerate, Seconds(1), channels=data.channels)
-                self._resample(silence)
-            else:
-                self._rs = self._noop
-
-        resampled = self._rs(data, self._finalized)
-        if not isinstance(resampled, ArrayWithUnits):
-            resampled = AudioSamples(resampled, self._samplerate)
-        yield resampled
+        resampled = self._resample(data)
+        self._n_input += len(data)
+        self._n_output += len(resampled)
+        if len(resampled):
+            yield AudioSamples(resampled, self._samplerate)
+
+    def _last_chunk(self):
+        if self._resample is None:
+            return
+        # The converter is still holding on to the very last samples.  Follow
+        # them up with some silence, so there are enough of them for the total
+        # to match the ratio of the two sampling rates
+        ratio = self._resample.ratio
+        remaining = int(np.round(self._n_input * ratio)) - self._n_output
+        nchannels = self._resample.nchannels
+        n_silence = int(np.ceil(2 / ratio)) + 1
+        shape = (n_silence,) if nchannels == 1 else (n_silence, nchannels)
+        silence = np.zeros(shape, dtype=np.float32)
+        resampled = self._resample(silence, end_of_input=True)
+        resampled = resampled[:max(0, remaining)]
+        if len(resampled) or not self._n_output:
+            yield AudioSamples(resampled, self._samplerate)
-- 
2.43.0


From d803b1e42861729540d50deb2d39062a0c1e1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 12/48] fix: Sum never summed its input

---
 zounds/basic/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/basic/basic.py b/zounds/basic/basic.py
index 31349d2..a914ac2 100644
--- a/zounds/basic/basic.py
+++ b/zounds/basic/basic.py
@@ -90,7 +90,7 @@ class Sum(Node):
         # TODO: This should be generalized.  Sum will have this same problem
         try:
             # data = np.sum(data, axis=self._axis)
-            data = np.sum(axis=self._axis)
+            data = data.sum(axis=self._axis)
         except ValueError:
             print('ERROR')
             data = data
-- 
2.43.0


From faddbee9b639d1333c80d9ef61b102583d28bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 13/48] fix: Flux and ComplexDomain failed on every input with
 a frequency dimension

---
 zounds/segment/onset.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index 0c9c3e3..692a700 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -75,9 +75,9 @@ class ComplexDomain(Node):
         angle = np.angle(angle[:, 2] - (2 * angle[:, 1]) + angle[:, 0])
 
         # expected magnitude
-        expected = np.abs(data[:, 1, :])
+        expected = np.abs(np.asarray(data[:, 1, :]))
         # actual magnitude
-        actual = np.abs(data[:, 2, :])
+        actual = np.abs(np.asarray(data[:, 2, :]))
         # detection function array
         detect = np.zeros(angle.shape)
 
@@ -95,9 +95,8 @@ class ComplexDomain(Node):
              (2 * expected * actual * np.cos(angle))) ** 0.5)[
             nonzero_phase_delta_indices]
 
-        dims = \
-            [TimeDimension(data.frequency, data.duration // 3)] \
-            + data.dimensions[1:]
+        td = data.dimensions[0]
+        dims = [TimeDimension(td.frequency, td.duration // 3)]
         output = ArrayWithUnits(detect.sum(axis=1), dims)
         yield output
 
@@ -124,7 +123,7 @@ class Flux(Node):
         diff = np.diff(data, axis=0)
 
         yield ArrayWithUnits(
-            np.linalg.norm(diff, axis=-1), data.dimensions)
+            np.linalg.norm(diff, axis=-1), data.dimensions[:1])
 
 
 class BasePeakPicker(Node):
-- 
2.43.0


From fb808f43d9573f6110696338587bb4d92d452405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 14/48] fix: PackedArrayWithUnitsFeature could not be
 instantiated

---
 zounds/persistence/arraywithunits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/persistence/arraywithunits.py b/zounds/persistence/arraywithunits.py
index 25877af..0a6e70e 100644
--- a/zounds/persistence/arraywithunits.py
+++ b/zounds/persistence/arraywithunits.py
@@ -118,7 +118,7 @@ class PackedArrayWithUnitsFeature(Feature):
             encoder=PackedArrayWithUnitsEncoder,
             decoder=ArrayWithUnitsDecoder(),
             **extractor_args):
-        super(ArrayWithUnitsFeature, self).__init__(
+        super(PackedArrayWithUnitsFeature, self).__init__(
                 extractor,
                 needs=needs,
                 store=store,
-- 
2.43.0


From 67efb684f3c7257c4b46bc80dc264b4de2957d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 15/48] fix: a stream that ends early must not pass for a
 complete sound

---
 zounds/soundfile/audiostream.py | 12 ++++++++++++
 zounds/soundfile/ogg_vorbis.py  |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index e88ae48..af024f5 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -114,6 +114,9 @@ class AudioStream(Node):
         self._chunk_size_samples = chunk_size_samples(sf, self._buf)
 
     def _last_chunk(self):
+        if self._buf is not None:
+            self._buf.ensure_complete()
+
         if self._sf is None and self._buf is not None:
             self._buf.seek(0)
             self._open(SoundFile(self._buf))
@@ -151,6 +154,15 @@ class MemoryBuffer(object):
         """
         return self._start + self._buf.getbuffer().nbytes
 
+    def ensure_complete(self):
+        """
+        Raises:
+            IOError: when the stream has ended before all data has arrived
+        """
+        if len(self) < self._content_length:
+            raise IOError('stream ended after {n} of {total} bytes'.format(
+                n=len(self), total=self._content_length))
+
     def read(self, count):
         self._buf.seek(max(0, self._position - self._start))
         data = self._buf.read(None if count == -1 else count)
diff --git a/zounds/soundfile/ogg_vorbis.py b/zounds/soundfile/ogg_vorbis.py
index 86c09a7..4ba147a 100644
--- a/zounds/soundfile/ogg_vorbis.py
+++ b/zounds/soundfile/ogg_vorbis.py
@@ -220,6 +220,9 @@ class OggVorbis(Node):
         if self._in_buf is None:
             raise NotEnoughData()
 
+        if self._finalized:
+            self._in_buf.ensure_complete()
+
         if self._in_sf is None:
             self._open()
 
-- 
2.43.0


From 467b87fa51f6b170adfa5aebfc043251691a3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 16/48] fix: ingest ignored its dataset, or errors raised by it

---
 zounds/datasets/ingest.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/zounds/datasets/ingest.py b/zounds/datasets/ingest.py
index 8f01e32..4efae87 100644
--- a/zounds/datasets/ingest.py
+++ b/zounds/datasets/ingest.py
@@ -5,13 +5,14 @@ from os import cpu_count
 
 def ingest_one(arg):
     metadata, cls, skip_if_exists = arg
-    request = metadata.request
-    url = request.url
-    if skip_if_exists and cls.exists(request.url):
-        print('already processed {request.url}'.format(**locals()))
-        return
 
     try:
+        request = metadata.request
+        url = request.url
+        if skip_if_exists and cls.exists(request.url):
+            print('already processed {request.url}'.format(**locals()))
+            return
+
         print('processing {request.url}'.format(**locals()))
         cls.process(meta=metadata, _id=url)
     except Exception as e:
@@ -40,12 +41,16 @@ def ingest(
     cls_args = repeat(cls)
     skip_args = repeat(skip_if_exists)
 
-    map_func(ingest_one, zip(dataset, cls_args, skip_args))
-
-    if pool is not None:
-        # if we're ingesting using multiple processes or threads, the processing
-        # should be parallel, but this method should be synchronous from the
-        # caller's perspective
-        pool.close()
-        pool.join()
+    try:
+        # map() is lazy, and the pools only report an error raised by the
+        # dataset along with the results, so the results have to be consumed
+        for _ in map_func(ingest_one, zip(dataset, cls_args, skip_args)):
+            pass
+    finally:
+        if pool is not None:
+            # if we're ingesting using multiple processes or threads, the
+            # processing should be parallel, but this method should be
+            # synchronous from the caller's perspective
+            pool.close()
+            pool.join()
 
-- 
2.43.0


From 299639a8d21dffb2b04c79600042dee83fa299b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 17/48] fix: a download that was interrupted must not be served
 from a cache

---
 zounds/datasets/cache.py | 10 +++++-----
 zounds/datasets/util.py  | 26 ++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/zounds/datasets/cache.py b/zounds/datasets/cache.py
index 7146af3..69e2969 100644
--- a/zounds/datasets/cache.py
+++ b/zounds/datasets/cache.py
@@ -1,6 +1,7 @@
 import os
 import hashlib
 import requests
+from .util import complete_file
 
 
 class DataSetCache(object):
@@ -8,22 +9,21 @@ class DataSetCache(object):
         super(DataSetCache, self).__init__()
         self.dataset = dataset
         self.path = path
-        if not os.path.exists(path):
-            os.makedirs(path)
+        os.makedirs(path, exist_ok=True)
 
     def __iter__(self):
         for request in self.dataset:
-            h = hashlib.md5(request.url).hexdigest()
+            prepped = request.prepare()
+            h = hashlib.md5(prepped.url.encode()).hexdigest()
             p = os.path.join(self.path, h)
 
             if not os.path.exists(p):
                 s = requests.Session()
-                prepped = request.prepare()
                 resp = s.send(prepped, stream=True)
 
                 resp.raise_for_status()
 
-                with open(p, 'wb') as f:
+                with complete_file(p) as f:
                     for chunk in resp.iter_content(1024):
                         f.write(chunk)
 
diff --git a/zounds/datasets/util.py b/zounds/datasets/util.py
index 09a63b0..2086604 100644
--- a/zounds/datasets/util.py
+++ b/zounds/datasets/util.py
@@ -1,19 +1,41 @@
+from contextlib import contextmanager
+from uuid import uuid4
 import requests
 import urllib.parse
 import os
 
 
+@contextmanager
+def complete_file(path):
+    """
+    Open a file for writing that only appears at path once it has been written
+    completely
+    """
+    partial = '{path}.{unique}.partial'.format(path=path, unique=uuid4().hex)
+    try:
+        with open(partial, 'wb') as f:
+            yield f
+        os.replace(partial, path)
+    except BaseException:
+        if os.path.exists(partial):
+            os.remove(partial)
+        raise
+
+
 def ensure_local_file(remote_url, local_path, chunksize=4096):
     parsed = urllib.parse.urlparse(remote_url)
     filename = os.path.split(parsed.path)[-1]
     local = os.path.join(local_path, filename)
 
     if not os.path.exists(local):
-        with open(local, 'wb') as f:
+        with complete_file(local) as f:
             resp = requests.get(remote_url, stream=True)
-            total_bytes = int(resp.headers['Content-Length'])
+            resp.raise_for_status()
+            total_bytes = int(resp.headers.get('Content-Length', 0))
             for i, chunk in enumerate(resp.iter_content(chunk_size=chunksize)):
                 f.write(chunk)
+                if not total_bytes:
+                    continue
                 progress = ((i * chunksize) / float(total_bytes)) * 100
                 print('{remote_url} {progress:.2f}% complete'.format(**locals()))
 
-- 
2.43.0


From 9f57ee65c0366a09a7510e751d46a0e9d262f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 18/48] fix: FreeSoundSearch repeated itself endlessly and
 exceeded n_results

---
 zounds/datasets/freesound.py | 45 +++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/zounds/datasets/freesound.py b/zounds/datasets/freesound.py
index 20ceaf7..065f965 100644
--- a/zounds/datasets/freesound.py
+++ b/zounds/datasets/freesound.py
@@ -74,31 +74,34 @@ class FreeSoundSearch(object):
         return self._freesound_to_audio_metadata(data)
 
     def _iter_results(self, link=None):
-        if link:
-            results = requests.get(link, params={'token': self.api_key})
-        else:
-            results = requests.get(
-                'http://www.freesound.org/apiv2/search/text',
-                params={
-                    'query': self.query,
-                    'token': self.api_key
-                })
-        time.sleep(self.delay)
-
-        results.raise_for_status()
-        results = results.json()
-
-        for r in results['results']:
-            yield self._get_metadata_by_id(r['id'])
-
-            # prevent 429 "Too Many Requests" responses
+        while True:
+            if link:
+                results = requests.get(link, params={'token': self.api_key})
+            else:
+                results = requests.get(
+                    'http://www.freesound.org/apiv2/search/text',
+                    params={
+                        'query': self.query,
+                        'token': self.api_key
+                    })
             time.sleep(self.delay)
 
-        for r in self._iter_results(results['next']):
-            yield r
+            results.raise_for_status()
+            results = results.json()
+
+            for r in results['results']:
+                yield self._get_metadata_by_id(r['id'])
+
+                # prevent 429 "Too Many Requests" responses
+                time.sleep(self.delay)
+
+            link = results['next']
+            if not link:
+                # this was the last page
+                break
 
     def __iter__(self):
         for i, data in enumerate(self._iter_results()):
-            if i > self.n_results:
+            if i >= self.n_results:
                 break
             yield self._freesound_to_audio_metadata(data)
-- 
2.43.0


From 9dbc5a036b7d3827c8b07fce5a6859cea6aa59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 19/48] fix: InternetArchive hid failed requests, and file
 names with ?, # or % were unreachable

---
 zounds/datasets/internetarchive.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zounds/datasets/internetarchive.py b/zounds/datasets/internetarchive.py
index c5b1312..e9de994 100644
--- a/zounds/datasets/internetarchive.py
+++ b/zounds/datasets/internetarchive.py
@@ -50,14 +50,14 @@ class InternetArchive(object):
         url = urllib.parse.urljoin(
             base_url, '/details/{archive_id}&output=json'.format(**locals()))
         resp = requests.get(url)
-
-        try:
-            all_files = resp.json()['files']
-        except ValueError as e:
-            all_files = dict()
+        resp.raise_for_status()
+        all_files = resp.json()['files']
 
         for k, v in all_files.items():
             if self.format_filter(v):
+                # file names may contain characters that mean something in a url
+                k = k.replace('%', '%25').replace('?', '%3F') \
+                    .replace('#', '%23')
                 sound_url = urllib.parse.urljoin(
                     base_url, '/download/{archive_id}{k}'.format(**locals()))
                 request = requests.Request(method='GET', url=sound_url)
-- 
2.43.0


From 187d546f19c9ce3504c382aaf0affb2c6ffe7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 20/48] fix: PhatDrumLoops always failed

---
 zounds/datasets/phatdrumloops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/phatdrumloops.py b/zounds/datasets/phatdrumloops.py
index 80d3285..70a948c 100644
--- a/zounds/datasets/phatdrumloops.py
+++ b/zounds/datasets/phatdrumloops.py
@@ -31,8 +31,9 @@ class PhatDrumLoops(object):
 
     def __iter__(self):
         resp = requests.get('http://phatdrumloops.com/beats.php')
+        resp.raise_for_status()
         pattern = re.compile('href="(?P<uri>/audio/wav/[^\.]+\.wav)"')
-        for m in pattern.finditer(resp.content):
+        for m in pattern.finditer(resp.text):
             url = urllib.parse.urljoin('http://phatdrumloops.com',
                                    m.groupdict()['uri'])
             request = requests.Request(
-- 
2.43.0


From 79efd8c837c5e0bf874270863637381de41fce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 21/48] fix: MusicNet always failed reading its metadata

---
 zounds/datasets/musicnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/datasets/musicnet.py b/zounds/datasets/musicnet.py
index 8235208..79bd9fe 100644
--- a/zounds/datasets/musicnet.py
+++ b/zounds/datasets/musicnet.py
@@ -29,7 +29,7 @@ class MusicNet(object):
         local_metadata = ensure_local_file(self._metadata, self.path)
 
         metadata = dict()
-        with open(local_metadata, 'rb') as f:
+        with open(local_metadata, 'r', newline='', encoding='utf-8') as f:
             reader = csv.DictReader(f)
             for row in reader:
                 metadata[row['id']] = row
-- 
2.43.0


From 56ed4879afc25bc62bc79de5d610d410ec014173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 22/48] fix: selecting nothing from an ArrayWithUnits, as
 ReservoirSampler does late in a stream

---
 zounds/core/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8e510c3..ba8e761 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -298,6 +298,8 @@ class ArrayWithUnits(np.ndarray):
 
     def _tuplify(self, a):
         if isinstance(a, list):
+            if not a:
+                return a,
             t = set([x.__class__ for x in a])
             if len(t) > 1:
                 raise ValueError('a must be homogeneous')
-- 
2.43.0


From 0168db729c8d1c035be0cdfea277f06a5d6f4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 23/48] fix: samples added by several threads got lost or
 misaligned

---
 zounds/learn/random_samples.py | 48 ++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index fcf2e01..0ba5f63 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -3,9 +3,39 @@ from zounds.core import ArrayWithUnits, IdentityDimension
 import numpy as np
 from multiprocessing.pool import ThreadPool
 from os import cpu_count
+from functools import wraps
+from threading import RLock
 
 
-class Reservoir(object):
+def synchronized(f):
+    @wraps(f)
+    def x(self, *args, **kwargs):
+        with self._lock:
+            return f(self, *args, **kwargs)
+
+    return x
+
+
+class Synchronized(object):
+    """
+    Samples may be added by several threads, whose updates must not mix
+    """
+
+    def __init__(self):
+        super(Synchronized, self).__init__()
+        self._lock = RLock()
+
+    def __getstate__(self):
+        state = dict(self.__dict__)
+        del state['_lock']
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._lock = RLock()
+
+
+class Reservoir(Synchronized):
     def __init__(self, nsamples, dtype=None):
         super(Reservoir, self).__init__()
 
@@ -39,6 +69,7 @@ class Reservoir(object):
         except AttributeError:
             pass
 
+    @synchronized
     def add(self, samples, indices=None):
         self._init_arr(samples)
 
@@ -54,6 +85,7 @@ class Reservoir(object):
         self.arr[indices, ...] = samples
         self.indices.update(indices)
 
+    @synchronized
     def get(self):
         if len(self.indices) == self.nsamples:
             return self.arr
@@ -61,6 +93,7 @@ class Reservoir(object):
         x = self.arr[sorted(self.indices), ...]
         return x
 
+    @synchronized
     def get_batch(self, batch_size):
         if batch_size > self.nsamples:
             raise ValueError(
@@ -83,7 +116,7 @@ class Reservoir(object):
         return self.arr[indices, ...]
 
 
-class MultiplexedReservoir(object):
+class MultiplexedReservoir(Synchronized):
     def __init__(self, nsamples, dtype=None):
         super(MultiplexedReservoir, self).__init__()
         self.dtype = dtype
@@ -105,9 +138,19 @@ class MultiplexedReservoir(object):
                 'samples should have keys {keys}'
                     .format(keys=list(self.reservoir.keys())))
 
+    def _check_sample_lengths(self, samples):
+        # nothing may be added for some of the keys only
+        lengths = dict((k, len(v)) for k, v in samples.items())
+        if len(set(lengths.values())) > 1:
+            raise ValueError(
+                'samples for all keys must have the same length,'
+                ' but they were {lengths}'.format(lengths=lengths))
+
+    @synchronized
     def add(self, samples):
         self._init_dict(samples)
         self._check_sample_keys(samples)
+        self._check_sample_lengths(samples)
 
         indices = None
         for k, v in samples.items():
@@ -116,6 +159,7 @@ class MultiplexedReservoir(object):
 
             self.reservoir[k].add(v, indices=indices)
 
+    @synchronized
     def get(self):
         return dict((k, v.get()) for k, v in self.reservoir.items())
 
-- 
2.43.0


From f6639424906563804dcdea20d2576d57d92d5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 24/48] fix: a web client leaving at the wrong moment ended the
 training it watched

---
 zounds/ui/training_monitor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index 4327c55..efbfca3 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -1,6 +1,7 @@
 from io import BytesIO
 
 from .api import ZoundsApp
+import tornado.ioloop
 import tornado.websocket
 import tornado.web
 import json
@@ -79,6 +80,8 @@ class TrainingMonitorApp(ZoundsApp):
 
         class TrainingHandler(tornado.websocket.WebSocketHandler):
             def _send_message(self):
+                loop = tornado.ioloop.IOLoop.current()
+
                 def x(*args, **kwargs):
                     batch = kwargs['batch']
 
@@ -92,10 +95,19 @@ class TrainingMonitorApp(ZoundsApp):
                         except KeyError:
                             # there's no data to report for this key
                             pass
-                    self.write_message(json.dumps(data))
+                    # training runs in a thread of its own, but only the web
+                    # server's thread may write to the connection
+                    loop.add_callback(self._write, json.dumps(data))
 
                 return x
 
+            def _write(self, message):
+                try:
+                    self.write_message(message)
+                except tornado.websocket.WebSocketClosedError:
+                    # the client has left in the meantime
+                    pass
+
             def open(self):
                 self.func = self._send_message()
                 app.trainer \
-- 
2.43.0


From 36abbd0ecaa22eb887f4c51f17479b90d9bdf39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 25/48] fix: training failed when a callback came or went, and
 methods could not be unregistered

---
 zounds/learn/trainer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index fea4b04..894c200 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -74,15 +74,16 @@ class Trainer(object):
         return self.network
 
     def register_batch_complete_callback(self, callback):
-        self._batch_complete_callbacks[id(callback)] = callback
+        self._batch_complete_callbacks[callback] = callback
 
     def unregister_batch_complete_callback(self, callback):
         try:
-            del self._batch_complete_callbacks[id(callback)]
+            del self._batch_complete_callbacks[callback]
         except KeyError:
             # the callback was never registered
             pass
 
     def on_batch_complete(self, *args, **kwargs):
-        for callback in self._batch_complete_callbacks.values():
+        # callbacks may come and go, from any thread, while a batch is reported
+        for callback in list(self._batch_complete_callbacks):
             callback(*args, **kwargs)
-- 
2.43.0


From 0c0016d81049b5c1cda65864554e1b7befcb77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 26/48] fix: trainers ran an epoch too many

---
 zounds/learn/embedding.py | 2 +-
 zounds/learn/trainer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/embedding.py b/zounds/learn/embedding.py
index e3f44ee..fe56c10 100644
--- a/zounds/learn/embedding.py
+++ b/zounds/learn/embedding.py
@@ -61,7 +61,7 @@ class TripletEmbeddingTrainer(Trainer):
         start = self._current_epoch
         stop = self._current_epoch + self.checkpoint_epochs
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(batches_in_epoch):
diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index 894c200..117a8d3 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -61,7 +61,7 @@ class Trainer(object):
         stop = self._current_epoch + self.checkpoint_epochs
 
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(0, len(data), self.batch_size):
-- 
2.43.0


From a1c31fd5ff38b2fb1844ea9a9d9c22cbbe72cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 27/48] fix: running out of memory when applying a trained
 network lost the network

---
 zounds/learn/pytorch_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index 23040b9..d5c23a4 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -154,7 +154,7 @@ class PyTorchNetwork(Preprocessor):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(
             network=trained_network, chunk_size=self.trainer.batch_size)
@@ -227,7 +227,7 @@ class PyTorchGan(PyTorchNetwork):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(network=network, apply_network=self.apply_network)
         inv_data = self.inversion_data()
@@ -292,7 +292,7 @@ class PyTorchAutoEncoder(PyTorchNetwork):
                 processed_data = forward_func(inp, network=trained_network)
             except RuntimeError as e:
                 processed_data = None
-                warnings.warn(e.message)
+                warnings.warn(str(e))
                 # we've just experienced an out of memory exception.  Cut the
                 # size of the input data in half, so that downstream nodes that
                 # need some data to initialize themselves can do so
-- 
2.43.0


From 964c42a6916a2ef23727fbeec189b3dae3849a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 28/48] fix: held-out data influenced supervised training, and
 errors were reported the wrong way round

---
 zounds/learn/supervised.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index a5216ff..0f9f3e5 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -1,5 +1,6 @@
 from .trainer import Trainer
 import numpy as np
+import torch
 import warnings
 
 
@@ -60,12 +61,14 @@ class SupervisedTrainer(Trainer):
         def batch(d, l, test=False):
             d = self.data_preprocessor(d)
             l = self.label_preprocessor(l)
-            inp_v = self._variable(d, volatile=test)
-            output = self.network(inp_v)
-
+            inp_v = self._variable(d)
+            # held-out data should have no influence on the network
+            self.network.train(not test)
             labels_v = self._variable(l)
 
-            error = self.loss(output, labels_v)
+            with torch.set_grad_enabled(not test):
+                output = self.network(inp_v)
+                error = self.loss(output, labels_v)
 
             if not test:
                 error.backward()
@@ -95,8 +98,8 @@ class SupervisedTrainer(Trainer):
                     inp, output, e = batch(
                         minibatch_data, minibatch_labels, test=False)
                 except RuntimeError as e:
-                    if 'Assert' in e.message:
-                        warnings.warn(e.message)
+                    if 'Assert' in str(e):
+                        warnings.warn(str(e))
                         continue
                     else:
                         raise
@@ -115,8 +118,8 @@ class SupervisedTrainer(Trainer):
                 self.on_batch_complete(
                     epoch=epoch,
                     batch=i,
-                    train_error=te,
-                    test_error=e,
+                    train_error=e,
+                    test_error=te,
                     samples=self.samples)
 
             self._current_epoch += 1
-- 
2.43.0


From 351f76ec85819241d40196af2ad5a52596cfe17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 29/48] fix: a network loaded from storage failed to say that
 it cannot be inverted

---
 zounds/learn/pytorch_model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index d5c23a4..416e508 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -27,10 +27,17 @@ class PyTorchPreprocessResult(PreprocessResult):
         kwargs = dict(self.op.kwargs)
         del kwargs['network']
 
+        # not everything that can be applied can be inverted, so the network
+        # isn't necessarily a part of the inversion data
+        inv_data_kwargs = dict(self.inversion_data.kwargs)
+        inv_data_network = inv_data_kwargs.pop('network', None) is not None
+
         return dict(
             forward_func=forward_func,
             op_kwargs=kwargs,
             inv_data_func=inv_data_func,
+            inv_data_kwargs=inv_data_kwargs,
+            inv_data_network=inv_data_network,
             backward_func=backward_func,
             weights=weights,
             name=name,
@@ -62,7 +69,11 @@ class PyTorchPreprocessResult(PreprocessResult):
             network=network,
             **state['op_kwargs'])
 
-        self.inversion_data = Op(state['inv_data_func'], network=network)
+        inv_data_kwargs = dict(state.get('inv_data_kwargs', {}))
+        if state.get('inv_data_network', True):
+            inv_data_kwargs['network'] = network
+
+        self.inversion_data = Op(state['inv_data_func'], **inv_data_kwargs)
         self.inverse = Op(state['backward_func'])
         self.name = state['name']
 
-- 
2.43.0


From 58f4f906b5cacfd282d3682221715267662bbde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 30/48] fix: the version of a pipeline with a network was a
 memory address

---
 zounds/learn/preprocess.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 576bb75..7668489 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -33,9 +33,25 @@ class Op(object):
             try:
                 h.update(v.version)
             except AttributeError:
-                h.update(np.array(v))
+                for chunk in self._version_data(v):
+                    h.update(chunk)
         return h.hexdigest()
 
+    def _version_data(self, value):
+        try:
+            weights = value.state_dict()
+        except AttributeError:
+            yield np.ascontiguousarray(value)
+            return
+
+        # this is a network.  What it computes is determined by its weights,
+        # and not by where it happens to live in memory
+        cls = value.__class__
+        yield '{cls.__module__}.{cls.__name__}'.format(cls=cls).encode()
+        for name, weight in weights.items():
+            yield name.encode()
+            yield np.ascontiguousarray(weight.cpu().numpy())
+
     def __getattr__(self, key):
         if key == '_kwargs':
             raise AttributeError()
-- 
2.43.0


From d5196858a9d4d3a59b8ae30225b2999a5d0dfd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 31/48] fix: scaling silent examples and constant features
 returned uninitialised memory

---
 zounds/learn/functional.py      | 2 +-
 zounds/learn/preprocess.py      | 5 +++--
 zounds/loudness/loudness.py     | 3 +--
 zounds/timeseries/functional.py | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/zounds/learn/functional.py b/zounds/learn/functional.py
index 9cda320..5591d6a 100644
--- a/zounds/learn/functional.py
+++ b/zounds/learn/functional.py
@@ -27,7 +27,7 @@ def example_wise_unit_norm(x, return_norms=False):
     # other axes as features
     x = x.reshape((len(x), -1))
     norms = np.linalg.norm(x, axis=-1, keepdims=True)
-    normed = np.divide(x, norms, where=norms != 0)
+    normed = x / np.where(norms == 0, 1, norms)
     normed = normed.reshape(original_shape)
 
     if return_norms:
diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 7668489..e791dce 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -442,7 +442,8 @@ class MeanStdNormalization(Preprocessor):
     def _forward_func(self):
         def x(d, mean=None, std=None):
             import numpy as np
-            return np.divide(d - mean, std, where=std != 0)
+            # features that never varied have nothing to be scaled by
+            return (d - mean) / np.where(std == 0, 1, std)
 
         return x
 
@@ -485,7 +486,7 @@ class InstanceScaling(Preprocessor):
             # TODO: it should be possible to hand this intermediate value off
             # to inversion data, and to ignore the extra
             m = np.max(np.abs(d), axis=axes, keepdims=True)
-            output = max_value * np.divide(d, m, where=m != 0)
+            output = max_value * (d / np.where(m == 0, 1, m))
             return ForwardResult(output, max=m, max_value=max_value)
 
         return x
diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index de167bf..deddf42 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -49,8 +49,7 @@ def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
 def unit_scale(x, axis=None):
     scaled = x - x.min(axis=axis, keepdims=True)
     mx = scaled.max(axis=axis, keepdims=True)
-    scaled = np.divide(scaled, mx, where=max != 0)
-    return scaled
+    return scaled / np.where(mx == 0, 1, mx)
 
 
 class MuLaw(Node):
diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 8f5b2cf..13fb233 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -13,7 +13,7 @@ def categorical(x, mu=255, normalize=True):
     if normalize:
         # normalize the signal
         mx = x.max()
-        x = np.divide(x, mx, where=mx != 0)
+        x = x / (mx or 1)
 
     # mu law compression
     x = mu_law(x)
-- 
2.43.0


From 48635c8c40fa822c695561e4fefee24b9d822913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 32/48] fix: every search in the browser failed

---
 zounds/ui/search.py     | 17 ++++++++++++-----
 zounds/ui/serializer.py |  9 +++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/zounds/ui/search.py b/zounds/ui/search.py
index b640c37..8e93f04 100644
--- a/zounds/ui/search.py
+++ b/zounds/ui/search.py
@@ -35,13 +35,20 @@ class ZoundsSearch(BaseZoundsApp):
                 b64_encoded_query = urllib.parse.unquote(
                         self.get_argument('query', default=''))
                 if b64_encoded_query:
-                    binary_query = base64.b64decode(b64_encoded_query)
-                    query = app.search.decode_query(binary_query)
-                    results = app.search.search(query, n_results=app.n_results)
+                    try:
+                        binary_query = base64.b64decode(
+                            b64_encoded_query, validate=True)
+                        query = app.search.decode_query(binary_query)
+                        results = app.search.search(
+                            query, n_results=app.n_results)
+                        # the search takes place as results are consumed
+                        output = app.serialize(RequestContext(value=results))
+                    except ValueError:
+                        # this isn't the code of anything
+                        raise tornado.web.HTTPError(http.client.BAD_REQUEST)
                 else:
                     results = app.search.random_search(n_results=app.n_results)
-                context = RequestContext(value=results)
-                output = app.serialize(context)
+                    output = app.serialize(RequestContext(value=results))
                 self.set_header('Content-Type', output.content_type)
                 self.write(output.data)
 
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 82f29fa..8883607 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -287,8 +287,13 @@ class SearchResultsSerializer(AudioSliceSerializer):
         return isinstance(context.value, SearchResults)
 
     def additional_data(self, context):
-        return {'query': base64.b64encode(context.value.query)}
+        query = context.value.query
+        if isinstance(query, np.ndarray):
+            query = query.tobytes()
+        return {'query': base64.b64encode(query).decode()}
 
     def iter_results(self, context):
-        for _id, ts in context.value:
+        for result in context.value:
+            # there may be additional data about each result
+            _id, ts = result[:2]
             yield ts, _id
-- 
2.43.0


From ddef73f4f6f085999b29df3017ac3b8b86c72996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 33/48] fix: links to features were broken for some base paths

---
 zounds/ui/baseapp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 296c804..15341bb 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -98,8 +98,8 @@ class BaseZoundsApp(object):
 
     def feature_path(self, _id, feature):
         _id = urllib.parse.quote(_id, safe='')
-        return '{base_path}{_id}/{feature}'.format(
-            base_path=self.base_path, _id=_id, feature=feature)
+        return '{base_path}/{_id}/{feature}'.format(
+            base_path=self.base_path.rstrip('/'), _id=_id, feature=feature)
 
     def find_serializer(self, context):
         try:
-- 
2.43.0


From 8dd33c4c977cb4ea981fb32acc54fd50170ce9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 34/48] fix: an application that had just been started could
 not be stopped

---
 zounds/ui/baseapp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 15341bb..77db27e 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -254,10 +254,14 @@ class BaseZoundsApp(object):
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         ioloop = tornado.ioloop.IOLoop.instance()
-        ioloop.add_callback(ioloop.stop)
-        self.server.stop()
+        ioloop.add_callback(self._stop)
         self.thread.join()
 
+    def _stop(self):
+        # this runs in the server's thread, once the server has been started
+        self.server.stop()
+        tornado.ioloop.IOLoop.instance().stop()
+
     def _start(self, port):
         asyncio.set_event_loop(asyncio.new_event_loop())
         app = self._make_app()
-- 
2.43.0


From 7ba4cdae6774b73aad3f8e723df244670a49fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 35/48] fix: the console ran some statements twice, and
 captured the output of other threads

---
 zounds/ui/api.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/zounds/ui/api.py b/zounds/ui/api.py
index 581f219..28f01eb 100644
--- a/zounds/ui/api.py
+++ b/zounds/ui/api.py
@@ -3,6 +3,7 @@ import json
 import tornado.ioloop
 import tornado.web
 import http.client
+import threading
 import traceback
 from io import StringIO
 import uuid
@@ -10,6 +11,24 @@ from .baseapp import BaseZoundsApp, NoMatchingSerializerException, RequestContex
 from .featureparser import FeatureParser
 
 
+class ThreadOutput(object):
+    """
+    Captures what is printed by the thread that created it.  Anything printed
+    by other threads in the meantime still ends up where it was meant to
+    """
+
+    def __init__(self, stdout):
+        super(ThreadOutput, self).__init__()
+        self._stdout = stdout
+        self._thread_id = threading.get_ident()
+        self.captured = StringIO()
+
+    def __getattr__(self, key):
+        if threading.get_ident() == self._thread_id:
+            return getattr(self.captured, key)
+        return getattr(self._stdout, key)
+
+
 class ZoundsApp(BaseZoundsApp):
     """
     Adds an in-browser REPL to the base zounds application
@@ -91,21 +110,28 @@ class ZoundsApp(BaseZoundsApp):
                     pass
 
             def post(self):
-                statement = self.request.body
+                statement = self.request.body.strip()
                 self.set_header('Content-Type', 'application/json')
                 output = dict()
 
                 try:
                     orig_stdout = sys.stdout
-                    sys.stdout = sio = StringIO()
+                    sys.stdout = stdout = ThreadOutput(orig_stdout)
+                    # find out what it is before running any of it
                     try:
-                        value = eval(statement, globals, locals)
+                        code = compile(statement, '<console>', 'eval')
+                        is_expression = True
+                    except SyntaxError:
+                        code = compile(statement, '<console>', 'exec')
+                        is_expression = False
+
+                    if is_expression:
+                        value = eval(code, globals, locals)
                         output['result'] = str(value)
                         self._add_url(statement, output, value)
-                    except SyntaxError:
-                        exec (statement, globals, locals)
-                        sio.seek(0)
-                        output['result'] = sio.read()
+                    else:
+                        exec(code, globals, locals)
+                        output['result'] = stdout.captured.getvalue()
                     self.set_status(http.client.OK)
                 except:
                     output['error'] = traceback.format_exc()
-- 
2.43.0


From 13afdfe216fccc7dc4a2c440c6d0e4bb5273436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 36/48] fix: features were served with wrong ranges, and bad
 requests for them failed

---
 zounds/ui/baseapp.py      | 29 ++++++++++++++---
 zounds/ui/contentrange.py | 28 +++++++++-------
 zounds/ui/search.py       |  3 +-
 zounds/ui/serializer.py   | 68 +++++++++++++++++++++++++--------------
 4 files changed, 86 insertions(+), 42 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 77db27e..8bef82c 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -6,7 +6,8 @@ import tornado.ioloop
 import tornado.web
 import http.client
 import urllib.request, urllib.parse, urllib.error
-from .contentrange import RangeRequest, UnsatisfiableRangeRequestException
+from .contentrange import RangeRequest, RangeUnitUnsupportedException, \
+    UnsatisfiableRangeRequestException
 from .serializer import DefaultSerializer, AudioSamplesSerializer, \
     NumpySerializer, OggVorbisSerializer, ConstantRateTimeSeriesSerializer, \
     OnsetsSerializer, SearchResultsSerializer
@@ -119,20 +120,40 @@ class BaseZoundsApp(object):
 
         class FeatureHandler(tornado.web.RequestHandler):
 
+            def _serialize(self, context):
+                try:
+                    return app.serialize(context)
+                except NoMatchingSerializerException:
+                    # there may be a way to serialize the value itself
+                    context.value = context.feature(
+                        _id=context.document._id, persistence=context.document)
+                    return app.serialize(context)
+
             def get(self, _id, feature):
+                try:
+                    feature = document.features[feature]
+                except KeyError:
+                    raise tornado.web.HTTPError(http.client.NOT_FOUND)
+
+                stored = filter(lambda f: f.store, document.features.values())
+                if not any(document.exists(_id, f) for f in stored):
+                    raise tornado.web.HTTPError(http.client.NOT_FOUND)
+
                 doc = document(_id)
-                feature = document.features[feature]
                 try:
                     slce = RangeRequest(self.request.headers['Range']).range()
-                except KeyError:
+                except (KeyError, RangeUnitUnsupportedException):
                     slce = slice(None)
                 context = RequestContext(
                     document=doc, feature=feature, slce=slce)
                 try:
-                    result = app.serialize(context)
+                    result = self._serialize(context)
                 except UnsatisfiableRangeRequestException:
                     self.set_status(http.client.REQUESTED_RANGE_NOT_SATISFIABLE)
                     self.finish()
+                    return
+                except NoMatchingSerializerException:
+                    raise tornado.web.HTTPError(http.client.NOT_ACCEPTABLE)
                 self.set_header('Content-Type', result.content_type)
                 self.set_header('Accept-Ranges', 'bytes')
                 self.write(result.data)
diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index e87b448..daca934 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -26,10 +26,9 @@ class RangeRequest(object):
 
     def time_slice(self, start, stop):
         start = float(start)
-        try:
-            stop = float(stop)
-        except ValueError:
-            stop = None
+        stop = float(stop) if stop else None
+        if stop is not None and stop < start:
+            raise ValueError('stop must not come before start')
         duration = \
             None if stop is None else Picoseconds(int(1e12 * (stop - start)))
         start = Picoseconds(int(1e12 * start))
@@ -37,10 +36,9 @@ class RangeRequest(object):
 
     def byte_slice(self, start, stop):
         start = int(start)
-        try:
-            stop = int(stop)
-        except ValueError:
-            stop = None
+        stop = int(stop) if stop else None
+        if stop is not None and stop < start:
+            raise ValueError('stop must not come before start')
         return slice(start, stop)
 
     def range(self):
@@ -57,12 +55,18 @@ class RangeRequest(object):
         stop = m.groupdict()['stop']
 
         if units == 'bytes':
-            return self.byte_slice(start, stop)
+            slice_func = self.byte_slice
         elif units == 'seconds':
-            return self.time_slice(start, stop)
+            slice_func = self.time_slice
         else:
             raise RangeUnitUnsupportedException(units)
 
+        try:
+            return slice_func(start, stop)
+        except (ValueError, OverflowError):
+            # ranges that make no sense are ignored
+            return slice(None)
+
 
 class ContentRange(object):
     def __init__(self, unit, start, total, stop=None):
@@ -77,7 +81,7 @@ class ContentRange(object):
         stop = None
         start = timeslice.start / one_second
         if timeslice.duration is not None:
-            stop = start + (timeslice.duration / one_second)
+            stop = min(timeslice.end, total) / one_second
         return ContentRange(
                 'seconds',
                 timeslice.start / one_second,
@@ -91,6 +95,6 @@ class ContentRange(object):
     def __str__(self):
         unit = self.unit
         start = self.start
-        stop = self.stop or self.total
+        stop = self.total if self.stop is None else self.stop
         total = self.total
         return '{unit} {start}-{stop}/{total}'.format(**locals())
diff --git a/zounds/ui/search.py b/zounds/ui/search.py
index 8e93f04..a71d9e0 100644
--- a/zounds/ui/search.py
+++ b/zounds/ui/search.py
@@ -1,4 +1,5 @@
-import tornado
+import http.client
+import tornado.web
 from .baseapp import BaseZoundsApp, RequestContext
 import base64
 import urllib.request, urllib.parse, urllib.error
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 8883607..6825e2f 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -1,11 +1,12 @@
 import datetime
 from zounds.persistence import ArrayWithUnitsFeature
-from zounds.timeseries import Seconds, Picoseconds, TimeSlice, AudioSamples
+from zounds.timeseries import \
+    Seconds, Picoseconds, TimeSlice, TimeDimension, AudioSamples
 from zounds.segment import TimeSliceFeature
 from zounds.index import SearchResults
 from zounds.soundfile import OggVorbisFeature
 from soundfile import SoundFile
-from .contentrange import ContentRange
+from .contentrange import ContentRange, UnsatisfiableRangeRequestException
 import numpy as np
 from featureflow import Decoder
 import matplotlib
@@ -49,21 +50,31 @@ class DefaultSerializer(object):
         document = context.document
         feature = context.feature
         slce = context.slce
+        if isinstance(slce, TimeSlice):
+            # only positions in the encoded data are known
+            raise UnsatisfiableRangeRequestException()
+
         flo = feature(_id=document._id, decoder=Decoder(), persistence=document)
-        if slce.start:
-            flo.seek(slce.start)
-        if slce.stop:
-            value = flo.read(slce.stop - slce.start)
-        else:
-            value = flo.read()
+
+        if slce == slice(None):
+            return TempResult(flo.read(), self.content_type)
+
         key = document.key_builder.build(
                 document._id, feature.key, feature.version)
         total = document.database.size(key)
+        start = slce.start or 0
+        if start >= total:
+            raise UnsatisfiableRangeRequestException()
+        # the last position of an HTTP byte range is part of the range
+        last = total - 1 if slce.stop is None else min(slce.stop, total - 1)
+        flo.seek(start)
+        value = flo.read(last + 1 - start)
         return TempResult(
                 value,
                 self.content_type,
-                is_partial=slce.start is not None or slce.stop is not None,
-                content_range=ContentRange.from_slice(slce, total))
+                is_partial=True,
+                content_range=ContentRange.from_slice(
+                        slice(start, last), total))
 
 
 class AudioSamplesSerializer(object):
@@ -118,6 +129,8 @@ class OggVorbisSerializer(object):
         slce = context.slce
         wrapper = feature(_id=document._id, persistence=document)
         samples = wrapper[slce]
+        if not len(samples):
+            raise UnsatisfiableRangeRequestException()
         bio = BytesIO()
         with SoundFile(
                 bio,
@@ -128,12 +141,14 @@ class OggVorbisSerializer(object):
                 subtype='VORBIS') as sf:
             sf.write(samples)
         bio.seek(0)
+        if slce == TimeSlice():
+            return TempResult(bio.read(), 'audio/ogg')
         content_range = ContentRange.from_timeslice(
                 slce, Picoseconds(int(1e12 * wrapper.duration_seconds)))
         return TempResult(
                 bio.read(),
                 'audio/ogg',
-                is_partial=slce != TimeSlice(),
+                is_partial=True,
                 content_range=content_range)
 
 
@@ -182,8 +197,12 @@ class ConstantRateTimeSeriesSerializer(object):
         feature = context.feature
         document = context.document
         data = feature(_id=document._id, persistence=document)
-        sliced_data = data[context.slce]
         td = data.dimensions[0]
+        if not isinstance(td, TimeDimension):
+            raise UnsatisfiableRangeRequestException()
+        sliced_data = data[context.slce]
+        if not sliced_data.size:
+            raise UnsatisfiableRangeRequestException()
         content_range = ContentRange.from_timeslice(
                 context.slce, td.end)
         return generate_image(
@@ -197,23 +216,18 @@ class NumpySerializer(object):
         super(NumpySerializer, self).__init__()
 
     def matches(self, context):
-        return \
-            isinstance(context.value, np.ndarray) \
-            and len(context.value.shape) in (1, 2, 3)
+        value = context.value
+        if not isinstance(value, np.ndarray) or not value.size:
+            return False
+        return value.ndim in (1, 2) \
+            or (value.ndim == 3 and value.shape[-1] in (3, 4))
 
     @property
     def content_type(self):
         return 'image/png'
 
     def serialize(self, context):
-        feature = context.feature
-        document = context.document
-        value = context.value
-        if value is None:
-            data = feature(_id=document._id, persistence=document)
-        else:
-            data = value
-        return generate_image(data)
+        return generate_image(context.value)
 
 
 class AudioSliceSerializer(object):
@@ -271,8 +285,12 @@ class OnsetsSerializer(AudioSliceSerializer):
         return isinstance(context.feature, TimeSliceFeature)
 
     def iter_results(self, context):
-        for ts in context.value.slices:
-            yield ts, context.document._id
+        document = context.document
+        value = context.value
+        if value is None:
+            value = context.feature(_id=document._id, persistence=document)
+        for ts in value.slices:
+            yield ts, document._id
 
 
 class SearchResultsSerializer(AudioSliceSerializer):
-- 
2.43.0


From a952f413a0ed2244355ac8645a88a830186f7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 37/48] fix: secrets that start or end with white space could
 not be used to sign in

---
 zounds/ui/baseapp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 8bef82c..f6d97c0 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -188,7 +188,8 @@ class BaseZoundsApp(object):
                 self.finish()
 
             def post(self):
-                secret = self.get_body_argument('secret')
+                # white space around a secret is a part of it, too
+                secret = self.get_body_argument('secret', strip=False)
                 if secret == app.secret:
                     self.set_secure_cookie('user', secret)
                     self.redirect('/')
-- 
2.43.0


From bb0acb16e3a4609e1e37f2abf1e72380eb015904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 38/48] fix: asking for a minute of stored audio crashed the
 web server

---
 zounds/ui/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 6825e2f..2012086 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -139,7 +139,9 @@ class OggVorbisSerializer(object):
                 channels=wrapper.channels,
                 format='OGG',
                 subtype='VORBIS') as sf:
-            sf.write(samples)
+            # libsndfile keeps everything that is written at once on the stack
+            for i in range(0, len(samples), wrapper.samplerate):
+                sf.write(samples[i: i + wrapper.samplerate])
         bio.seek(0)
         if slce == TimeSlice():
             return TempResult(bio.read(), 'audio/ogg')
-- 
2.43.0


From 6e2fc9e40efcdb5bfbbd199db0b38afa7f616c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 39/48] fix: windows of a single sample are windows, too

Windows of one sample could not be labelled, and when there were gaps
between them, their positions depended on the chunks the signal
arrived in.
---
 zounds/core/axis.py  | 4 ++++
 zounds/nputil/npx.py | 5 +----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index ba8e761..f9fa6b6 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -209,6 +209,10 @@ class ArrayWithUnits(np.ndarray):
         if not result.size:
             return self, ArrayWithUnits(result, self.dimensions)
 
+        if result.ndim == self.ndim:
+            # windows of a single sample are windows, too
+            result = np.asarray(result)[:, np.newaxis, ...]
+
         try:
             new_dims = tuple(self._compute_new_dims(result, ws, ss))
         except ValueError:
diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index a365382..b09ec97 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -161,10 +161,7 @@ def windowed(a, windowsize, stepsize=None, dopad=False):
     if windowsize == 1 and stepsize == 1:
         # A windowsize and stepsize of one mean that no windowing is necessary.
         # Return the array unchanged.
-        return np.zeros((0,) + a.shape[1:], dtype=a.dtype), a
-
-    if windowsize == 1 and stepsize > 1:
-        return np.zeros(0, dtype=a.dtype), a[::stepsize]
+        return a[:0], a
 
     # the original length of the input array
     l = a.shape[0]
-- 
2.43.0


From c7d5fbf9103b76f37dc442b8ce20be68931e77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:36 +0000
Subject: [PATCH 40/48] fix: a listening index misses events that are published
 out of order

Events are stamped by a clock, which may run backwards, and published after
they've been logged, possibly in another order, so there's no single position
in the log that separates the events that have been processed from the others.
Remember the events themselves, along with the codes that are due to them.
---
 zounds/index/index.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index b6f0e7e..271a87e 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -149,14 +149,26 @@ class HammingIndex(object):
         if not items:
             return
 
-        # the codes and the position in the event log are stored together, so
-        # that a document is never partially indexed, or indexed again
+        # the codes and the event they're due to are stored together, so that a
+        # document is never partially indexed, or indexed again
         self._init_hamming_db(items[0][0])
         self.hamming_db.append_all(
-            items, {b'timestamp': timestamp} if timestamp else None)
+            items, {self._event_key(timestamp): b'1'} if timestamp else None)
+
+    def _event_key(self, timestamp):
+        return b'event.' + timestamp
+
+    def _already_processed(self, timestamp):
+        if self.hamming_db is None:
+            return False
+        key = self._event_key(timestamp)
+        return self.hamming_db.get_metadata(key) is not None
 
     def _listen(self, raise_when_empty=False):
 
+        # events may be published in another order than they were logged, so
+        # there's no position in the log that everything before it has been
+        # processed, except for databases that only remember such a position
         if self.hamming_db is not None:
             last_timestamp = self.hamming_db.get_metadata(b'timestamp') or b''
         else:
@@ -170,8 +182,6 @@ class HammingIndex(object):
         subscription = self.event_log.subscribe(
             last_id=last_timestamp, raise_when_empty=raise_when_empty)
 
-        processed = set()
-
         for timestamp, data in subscription:
 
             # past events have binary timestamps, live ones have text timestamps
@@ -180,12 +190,6 @@ class HammingIndex(object):
             except AttributeError:
                 pass
 
-            # an event that arrives while past events are being read is both
-            # part of the log, and delivered live
-            if timestamp in processed:
-                continue
-            processed.add(timestamp)
-
             # parse the data from the event stream
             data = json.loads(data)
             _id, name, version = data['_id'], data['name'], data['version']
@@ -194,8 +198,12 @@ class HammingIndex(object):
             if name != self.feature.key or version != self.feature.version:
                 continue
 
-            last_timestamp = max(last_timestamp, timestamp)
-            self.add(_id, last_timestamp)
+            # an event that arrives while past events are being read is both
+            # part of the log, and delivered live
+            if self._already_processed(timestamp):
+                continue
+
+            self.add(_id, timestamp)
 
     def _parse_result(self, result):
         d = json.loads(result)
-- 
2.43.0


From 424a5820abeffe44915a27dc449d2cd24ef0d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:28 +0000
Subject: [PATCH 41/48] fix: triplet training forgets the state of its
 optimizer at checkpoints

---
 zounds/learn/embedding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/embedding.py b/zounds/learn/embedding.py
index fe56c10..0e7b896 100644
--- a/zounds/learn/embedding.py
+++ b/zounds/learn/embedding.py
@@ -51,6 +51,7 @@ class TripletEmbeddingTrainer(Trainer):
         self.margin = 0.1
         self.register_batch_complete_callback(self._log)
         self.loss = nn.TripletMarginLoss(margin=self.margin)
+        self.optimizer = None
 
     def _cuda(self, device=None):
         self.loss = self.loss.cuda()
@@ -88,7 +89,10 @@ class TripletEmbeddingTrainer(Trainer):
 
         self.network.train()
 
-        optimizer = Adam(trainable_parameters(self.network), lr=1e-5)
+        if self.optimizer is None:
+            # training that's resumed carries on with the same optimizer
+            self.optimizer = Adam(
+                trainable_parameters(self.network), lr=1e-5)
 
         for epoch, batch in self._driver(data):
             self.network.zero_grad()
@@ -113,7 +117,7 @@ class TripletEmbeddingTrainer(Trainer):
 
             error = self.loss.forward(a, p, n)
             error.backward()
-            optimizer.step()
+            self.optimizer.step()
 
             self.on_batch_complete(
                 epoch=epoch,
-- 
2.43.0


From 07c3829b75be4c1ac69e4ec5d5fbcc0e8144358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:28 +0000
Subject: [PATCH 42/48] fix: the gradient penalty is for each sample, whatever
 its shape

Also print the gradients in debugging mode, instead of failing.
---
 zounds/learn/wgan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/wgan.py b/zounds/learn/wgan.py
index 97df186..ba857c4 100644
--- a/zounds/learn/wgan.py
+++ b/zounds/learn/wgan.py
@@ -96,6 +96,7 @@ class WassersteinGanTrainer(Trainer):
             create_graph=True,
             retain_graph=True,
             only_inputs=True)[0]
+        gradients = gradients.contiguous().view(subset_size, -1)
         return ((gradients.norm(2, dim=1) - 1) ** 2).mean() * 10
 
     def freeze_generator(self):
@@ -121,7 +122,7 @@ class WassersteinGanTrainer(Trainer):
         for n, p in network.named_parameters():
             g = p.grad
             if g is not None:
-                print((n, g.min().data[0], g.max().data[0], g.mean().data[0]))
+                print((n, g.min().item(), g.max().item(), g.mean().item()))
 
     def zero_generator_gradients(self):
         self._debug_network_gradient(self.generator)
-- 
2.43.0


From e576ae6d79db536f2da200afca357d6fe4dbdf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 43/48] fix: the gradient penalty loss is for each sample, too

---
 zounds/learn/loss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zounds/learn/loss.py b/zounds/learn/loss.py
index 6bd3c38..c2409d1 100644
--- a/zounds/learn/loss.py
+++ b/zounds/learn/loss.py
@@ -306,4 +306,5 @@ class WassersteinGradientPenaltyLoss(BaseLoss):
             create_graph=True,
             retain_graph=True,
             only_inputs=True)[0]
+        gradients = gradients.contiguous().view(subset_size, -1)
         return ((gradients.norm(2, dim=1) - 1) ** 2).mean() * self.weight
-- 
2.43.0


From dae3c97d6241fbbf97b5112e4bc1f4e420fa0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 44/48] fix: entries added by another process aren't missed
 while another thread appends

---
 zounds/index/hammingdb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 286afa2..d69783a 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -146,7 +146,11 @@ class HammingDb(object):
             self._ids.add(_id)
 
     def _check_for_external_modifications(self):
-        if self.__len__() != self._codes.logical_size:
+        # the in-memory size must be read first.  Otherwise, entries that other
+        # threads append to this instance in the meantime could make up for
+        # entries that were added by other processes
+        in_memory_size = self._codes.logical_size
+        if in_memory_size != len(self):
             self._catch_up_on_in_memory_store()
 
     def _new_id(self):
-- 
2.43.0


From 4a42a71105f6eb836a50441b5dfa52bd76729049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:14 +0000
Subject: [PATCH 45/48] fix: printing while the console executes a statement
 could crash the process

---
 zounds/ui/api.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/zounds/ui/api.py b/zounds/ui/api.py
index 28f01eb..a01dff8 100644
--- a/zounds/ui/api.py
+++ b/zounds/ui/api.py
@@ -13,15 +13,27 @@ from .featureparser import FeatureParser
 
 class ThreadOutput(object):
     """
-    Captures what is printed by the thread that created it.  Anything printed
-    by other threads in the meantime still ends up where it was meant to
+    Captures what is printed by a single thread.  Anything printed by other
+    threads in the meantime still ends up where it was meant to.
+
+    Other threads may still be busy with this object when it's no longer
+    sys.stdout, so it has to be kept, and used again for the next statement
     """
 
-    def __init__(self, stdout):
+    def __init__(self):
         super(ThreadOutput, self).__init__()
-        self._stdout = stdout
+        self._stdout = None
+        self._thread_id = None
+        self.captured = None
+
+    def start(self):
+        self._stdout = sys.stdout
         self._thread_id = threading.get_ident()
         self.captured = StringIO()
+        sys.stdout = self
+
+    def stop(self):
+        sys.stdout = self._stdout
 
     def __getattr__(self, key):
         if threading.get_ident() == self._thread_id:
@@ -55,6 +67,7 @@ class ZoundsApp(BaseZoundsApp):
         self.globals = globals
         self.locals = locals
         self.temp = {}
+        self.stdout = ThreadOutput()
 
     def custom_routes(self):
         return [
@@ -115,8 +128,7 @@ class ZoundsApp(BaseZoundsApp):
                 output = dict()
 
                 try:
-                    orig_stdout = sys.stdout
-                    sys.stdout = stdout = ThreadOutput(orig_stdout)
+                    app.stdout.start()
                     # find out what it is before running any of it
                     try:
                         code = compile(statement, '<console>', 'eval')
@@ -131,13 +143,13 @@ class ZoundsApp(BaseZoundsApp):
                         self._add_url(statement, output, value)
                     else:
                         exec(code, globals, locals)
-                        output['result'] = stdout.captured.getvalue()
+                        output['result'] = app.stdout.captured.getvalue()
                     self.set_status(http.client.OK)
                 except:
                     output['error'] = traceback.format_exc()
                     self.set_status(http.client.BAD_REQUEST)
                 finally:
-                    sys.stdout = orig_stdout
+                    app.stdout.stop()
 
                 self.write(json.dumps(output))
                 self.finish()
-- 
2.43.0


From a14409d026b6eee3d51eeda8ac0101027c52d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:14 +0000
Subject: [PATCH 46/48] fix: samples that were handed out don't change as more
 are added

---
 zounds/learn/random_samples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index 0ba5f63..c882255 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -88,7 +88,8 @@ class Reservoir(Synchronized):
     @synchronized
     def get(self):
         if len(self.indices) == self.nsamples:
-            return self.arr
+            # what has been handed out must not change as samples are added
+            return self.arr.copy()
 
         x = self.arr[sorted(self.indices), ...]
         return x
-- 
2.43.0


From 0e67984ada371cff3ed9ddeca1a6b9ce04e19bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:14 +0000
Subject: [PATCH 47/48] fix: cached files survive a power failure

---
 zounds/datasets/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zounds/datasets/util.py b/zounds/datasets/util.py
index 2086604..88d0671 100644
--- a/zounds/datasets/util.py
+++ b/zounds/datasets/util.py
@@ -15,6 +15,10 @@ def complete_file(path):
     try:
         with open(partial, 'wb') as f:
             yield f
+            # otherwise, the file might appear at path before its contents
+            # have made it to the disk, and be damaged by a power failure
+            f.flush()
+            os.fsync(f.fileno())
         os.replace(partial, path)
     except BaseException:
         if os.path.exists(partial):
-- 
2.43.0


From 5c1ab5a4dbc5e8e009d45efdd431ef0ba38e336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:59 +0000
Subject: [PATCH 48/48] fix: accept sizes of lmdb stores in scientific
 notation, the default included

---
 zounds/util/persistence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/util/persistence.py b/zounds/util/persistence.py
index e26bb58..f9d660e 100644
--- a/zounds/util/persistence.py
+++ b/zounds/util/persistence.py
@@ -11,6 +11,9 @@ def simple_lmdb_settings(path, map_size=1e9, user_supplied_id=False):
         map_size (int): The amount of space to allot for the database
     """
 
+    # sizes are often given in scientific notation, but lmdb only takes integers
+    map_size = int(map_size)
+
     def decorator(cls):
         provider = \
             ff.UserSpecifiedIdProvider(key='_id') \
-- 
2.43.0

