From 64bd898e9aebaeda0bd58cc7aecaaec694949289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 01/55] fix: get_data_counts() for control sources

np.ones(f.train_ids) used the train IDs as an array shape.
---
 karabo_data/reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6cd3495..e28bf14 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -498,13 +498,15 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(f.train_ids, dtype=np.uint64)
+                group = ''
             else:
                 group = key.partition('.')[0]
-                _, counts = f.get_index(source, group)
+            _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        ser = pd.concat(sorted(
+            seq_series, key=lambda s: s.index[0] if len(s) else 0
+        ))
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
-- 
2.43.0


From 921cb359985fbadde19e058f9e53a43d0f5a45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 02/55] fix: trains() leaves out keys with no data for a train

This is what the documentation says, and what train_from_id() does.
---
 karabo_data/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index e28bf14..85ad89b 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1284,6 +1284,8 @@ class TrainIterator:
                 group = key.partition('.')[0]
                 firsts, counts = file.get_index(source, group)
                 first, count = firsts[pos], counts[pos]
+                if not count:
+                    continue
                 if count == 1:
                     source_data[key] = ds[first]
                 else:
-- 
2.43.0


From 1093acbce64daaebc1c3ab8dbb31ae40b32e4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 03/55] fix: don't duplicate trains in
 select_trains(by_index[[...]])

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 85ad89b..465a4d8 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -969,7 +969,7 @@ class DataCollection:
                 )
         elif isinstance(tr, by_index) and isinstance(tr.value, (list, np.ndarray)):
             # Select a list of trains by index in this collection
-            new_train_ids = sorted([self.train_ids[i] for i in tr.value])
+            new_train_ids = sorted({self.train_ids[i] for i in tr.value})
         else:
             raise TypeError(type(train_range))
 
-- 
2.43.0


From cc047d3d158606d2e5e723ccb60700aa5d127f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 04/55] fix: get_series() with empty files, 1D pulse data and
 varying counts

- A sequence file with no entries for the source made it fail.
- Processed data doesn't have the extra dimension raw detector data has.
- Files with up to 1 entry per train got a different kind of index.
---
 karabo_data/reader.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 465a4d8..2ff3fc0 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -549,29 +549,39 @@ class DataCollection:
 
         elif source in self.instrument_sources:
             data_path = "/INSTRUMENT/{}/{}".format(source, key.replace('.', '/'))
+            group = key.partition('.')[0]
+            files_indices = []
             for f in self._source_index[source]:
-                group = key.partition('.')[0]
                 firsts, counts = f.get_index(source, group)
                 trainids = self._expand_trainids(counts, f.train_ids)
+                files_indices.append((f, pd.Index(trainids, name='trainId')))
+
+            # Use the same kind of index for all files in the run
+            per_pulse = not all(index.is_unique for _, index in files_indices)
 
-                index = pd.Index(trainids, name='trainId')
-                data = f.file[data_path][:]
-                if not index.is_unique:
+            for f, index in files_indices:
+                data = f.file[data_path][: len(index)]
+                if per_pulse:
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
-                    pulse_id = pulse_id[: len(index), 0]
+                    pulse_id = pulse_id[: len(index)]
+                    # Raw files have a spurious extra dimension
+                    if pulse_id.ndim >= 2 and pulse_id.shape[1] == 1:
+                        pulse_id = pulse_id[:, 0]
+                    if data.ndim >= 2 and data.shape[1] == 1:
+                        data = data[:, 0]
                     index = pd.MultiIndex.from_arrays(
-                        [trainids, pulse_id], names=['trainId', 'pulseId']
+                        [index, pulse_id], names=['trainId', 'pulseId']
                     )
-                    # Does pulse-oriented data always have an extra dimension?
-                    assert data.shape[1] == 1
-                    data = data[:, 0]
-                data = data[: len(index)]
 
                 seq_series.append(pd.Series(data, name=name, index=index))
         else:
             raise Exception("Unknown source category")
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Leave out files with no data for this source, unless none have any
+        seq_series = [s for s in seq_series if len(s)] or seq_series[:1]
+        ser = pd.concat(sorted(
+            seq_series, key=lambda s: s.index[0] if len(s) else 0
+        ))
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
-- 
2.43.0


From dd597cd3d0b79c98ee44197ae7c2855f8cfd666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 05/55] fix: use the index to read control data

write() and write_virtual() leave gaps in control data for trains where a
source was not recorded. Reading such files by train position returned data
from the wrong train or went past the end of the dataset.
---
 karabo_data/reader.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 2ff3fc0..eafbd02 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -332,10 +332,14 @@ class DataCollection:
     def _check_data_missing(self, tid) -> bool:
         """Return True if a train does not have data for all sources"""
         for source in self.control_sources:
-            file, _ = self._find_data(source, tid)
+            file, pos = self._find_data(source, tid)
             if file is None:
                 return True
 
+            _, counts = file.get_index(source, '')
+            if counts[pos] == 0:
+                return True
+
         for source in self.instrument_sources:
             file, pos = self._find_data(source, tid)
             if file is None:
@@ -430,9 +434,13 @@ class DataCollection:
             if file is None:
                 continue
 
+            firsts, counts = file.get_index(source, '')
+            if not counts[pos]:
+                continue
+
             for key in self.keys_for_source(source):
                 path = '/CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-                source_data[key] = file.file[path][pos]
+                source_data[key] = file.file[path][firsts[pos]]
 
         for source in self.instrument_sources:
             source_data = res[source] = {
@@ -542,8 +550,10 @@ class DataCollection:
         if source in self.control_sources:
             data_path = "/CONTROL/{}/{}".format(source, key.replace('.', '/'))
             for f in self._source_index[source]:
-                data = f.file[data_path][: len(f.train_ids), ...]
-                index = pd.Index(f.train_ids, name='trainId')
+                firsts, counts = f.get_index(source, '')
+                trainids = self._expand_trainids(counts, f.train_ids)
+                data = f.file[data_path][: len(trainids), ...]
+                index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
 
@@ -1278,10 +1288,12 @@ class TrainIterator:
                 'metadata': {'source': source, 'timestamp.tid': tid}
             }
             for key in self.data.keys_for_source(source):
-                _, pos, ds = self._find_data(source, key, tid)
+                file, pos, ds = self._find_data(source, key, tid)
                 if ds is None:
                     continue
-                source_data[key] = ds[pos]
+                firsts, counts = file.get_index(source, '')
+                if counts[pos]:
+                    source_data[key] = ds[firsts[pos]]
 
         for source in self.data.instrument_sources:
             source_data = res[source] = {
-- 
2.43.0


From 29e53f468e27b29154c966454fa5cfb7d405e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 06/55] fix: write() with sources missing data for some or all
 trains

get_array() always labels the first dimension now, even when it's empty.
---
 karabo_data/reader.py | 6 ++++--
 karabo_data/writer.py | 1 -
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index eafbd02..4fdcc04 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -729,9 +729,11 @@ class DataCollection:
         dims = ['trainId'] + extra_dims
 
         # Train ID index
-        coords = {}
         if dest_dim0:
-            coords = {'trainId': np.concatenate(chunks_trainids)}
+            train_ids = np.concatenate(chunks_trainids)
+        else:
+            train_ids = np.zeros(0, dtype=np.uint64)
+        coords = {'trainId': train_ids}
 
         return xarray.DataArray(res, dims=dims, coords=coords)
 
diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 585a6a6..2996bfb 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -17,7 +17,6 @@ class FileWriter:
 
     def add_control_dataset(self, source, key):
         a = self.data.get_array(source, key)
-        assert a.shape[0] == len(self.data.train_ids)
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_control_index(source, a.coords['trainId'].values)
-- 
2.43.0


From 2f3b1ae03436a846341ee961a2f4294f7c3a31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 07/55] fix: select_trains() slicing at a train ID missing from
 the run

---
 karabo_data/read_machinery.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 855bc35..fa8277a 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -2,6 +2,7 @@
 
 The public API is in karabo_data.reader; this is internal code.
 """
+from bisect import bisect_left
 from collections import defaultdict
 from glob import iglob
 import logging
@@ -69,7 +70,9 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     except ValueError:
         pass
 
-    if tid < train_ids[0]:
+    if not train_ids:
+        raise ValueError("Train ID {} is not in an empty selection".format(tid))
+    elif tid < train_ids[0]:
         if stop:
             raise ValueError("Train ID {} is before this run (starts at {})"
                              .format(tid, train_ids[0]))
@@ -84,7 +87,7 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     else:
         # This train ID is within the run, but doesn't have an entry.
         # Find the first ID in the run greater than the one given.
-        return (train_ids > tid).nonzero()[0][0]
+        return bisect_left(train_ids, tid)
 
 
 class DataChunk:
-- 
2.43.0


From 69e65716840696c3e394fcb4b7ebb2a239b854d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 08/55] fix: reading data when a file has no trains

---
 karabo_data/read_machinery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index fa8277a..96d6a3f 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -127,6 +127,9 @@ def contiguous_regions(condition):
     a 2D array where the first column is the start index of the region and the
     second column is the end index."""
 
+    if not condition.size:
+        return np.zeros((0, 2), dtype=np.intp)
+
     # Find the indicies of changes in "condition"
     d = np.diff(condition)
     idx, = d.nonzero()
-- 
2.43.0


From f569fa4374f9d8de4b61308e41c23b9b885f2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 09/55] fix: select all keys for a source with an empty set

This is documented, but raised TypeError. An unknown type of selection was
meant to raise TypeError, but didn't.
---
 karabo_data/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 4fdcc04..8b424b1 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -811,15 +811,15 @@ class DataCollection:
         return DataCollection(files, selection=selection, train_ids=train_ids)
 
     def _expand_selection(self, selection):
-        res = defaultdict(set)
         if isinstance(selection, dict):
             # {source: {key1, key2}}
             # {source: {}} -> all keys for this source
-            for source, keys in selection.items():  #
+            res = {}
+            for source, keys in selection.items():
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source].update(keys or None)
+                res[source] = set(keys) if keys else None
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
@@ -828,9 +828,9 @@ class DataCollection:
                 for (src_glob, key_glob) in selection
             )
         else:
-            TypeError("Unknown selection type: {}".format(type(selection)))
+            raise TypeError("Unknown selection type: {}".format(type(selection)))
 
-        return dict(res)
+        return res
 
     def _select_glob(self, source_glob, key_glob):
         source_re = re.compile(fnmatch.translate(source_glob))
-- 
2.43.0


From a8a42714da5df9b70f9112a4093b9395d6fe5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 10/55] fix: don't bring back deselected keys when selecting
 again

select() with a '*' key pattern or a dict gave access to keys which were not
in the collection it was called on.
---
 karabo_data/components.py |  9 ++++++++-
 karabo_data/reader.py     | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e1c0c35..6b57e27 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -100,7 +100,7 @@ class MPxDetectorBase:
         # pandas' missing-data handling converts the data to floats if there
         # are any gaps - so fill them with 0s and convert back to uint64.
         mod_data_counts = pd.DataFrame({
-            src: data.get_data_counts(src, 'image.data')
+            src: data.get_data_counts(src, self._counts_key(data, src))
             for src in source_to_modno
         }).fillna(0).astype(np.uint64)
 
@@ -159,6 +159,13 @@ class MPxDetectorBase:
 
         return source_to_modno
 
+    @staticmethod
+    def _counts_key(data, source):
+        # All keys in the image group share one index, so any one which is
+        # selected will do to get the frame counts.
+        keys = [k for k in data.keys_for_source(source) if k.startswith('image.')]
+        return min(keys, default='image.data')
+
     @classmethod
     def _select_trains(cls, data, mod_data_counts, min_modules):
         modules_present = (mod_data_counts > 0).sum(axis=1)
diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 8b424b1..2726354 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -819,7 +819,14 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source] = set(keys) if keys else None
+                if not keys:
+                    res[source] = self.selection[source]
+                    continue
+
+                for key in keys:
+                    if key not in self.keys_for_source(source):
+                        raise PropertyNameError(key, source)
+                res[source] = set(keys)
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
@@ -849,7 +856,7 @@ class DataCollection:
                 continue
 
             if key_glob == '*':
-                matched[source] = None
+                matched[source] = self.selection[source]
             else:
                 r = ctrl_key_re if source in self.control_sources else key_re
                 keys = set(filter(r.match, self.keys_for_source(source)))
@@ -941,7 +948,9 @@ class DataCollection:
             if keys is None:
                 keys = self.keys_for_source(source)
 
-            selection[source] = keys - desel_keys
+            keys = keys - desel_keys
+            if keys:
+                selection[source] = keys
 
         files = [f for f in self.files
                  if f.all_sources.intersection(selection.keys())]
-- 
2.43.0


From 512cd75bac0eb1eabcc0cc5dc66eba6045e5db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 11/55] fix: get_dask_array() when a file has no data for the
 selected trains

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 2726354..ef65ae4 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -766,7 +766,8 @@ class DataCollection:
 
         chunks_darrs = []
         for chunk in chunks:
-            chunk_dim0 = int(np.sum(chunk.counts))
+            # Dask needs a non-zero chunk size, even for an empty selection
+            chunk_dim0 = max(int(np.sum(chunk.counts)), 1)
             chunk_shape = (chunk_dim0,) + chunk.dataset.shape[1:]
             itemsize = chunk.dataset.dtype.itemsize
 
-- 
2.43.0


From c48024d593ee20251cf1d4a6160435e60e4de9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 12/55] fix: validate files with no trains or mismatched index
 lengths

These made the validator fail with an error instead of reporting problems.
---
 karabo_data/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e669a59..f0b28a1 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -78,6 +78,8 @@ class FileValidator:
                 group = key.split('.', 1)[0]
                 src_groups.add((src, group))
                 first, count = self.file.get_index(src, group)
+                if first.shape != count.shape:
+                    continue  # Recorded as a problem below
                 data_dim0 = self.file.file[ds_path].shape[0]
                 if np.any((first + count) > data_dim0):
                     max_end = (first + count).max()
@@ -106,6 +108,7 @@ class FileValidator:
                         first_shape=first.shape,
                         count_shape=count.shape,
                     )
+                    continue
 
                 if first.shape != self.file.train_ids.shape:
                     record(
@@ -120,6 +123,9 @@ class FileValidator:
 def check_index_contiguous(firsts, counts, record):
     probs = []
 
+    if firsts.size == 0:
+        return probs
+
     if firsts[0] != 0:
         record("Index doesn't start at 0")
 
-- 
2.43.0


From d4f807f364ce3d48ece1c5a950b152f7583e560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 13/55] fix: validate runs with no data map cache

RunValidator failed if the cache did not cover every file in the run.
---
 karabo_data/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index f0b28a1..a4a7950 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -197,6 +197,9 @@ class RunValidator:
         cache = RunFilesMap(self.run_dir)
         for f_access in self.run.files:
             f_cache = cache.get(f_access.filename)
+            if f_cache is None:
+                continue  # No cache entry, or outdated: not a problem
+
             if (
                     f_cache['control_sources'] != f_access.control_sources
                  or f_cache['instrument_sources'] != f_access.instrument_sources
-- 
2.43.0


From 0296216a26f0531b6fbb4e473dc02698e3ae5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 14/55] fix: open runs when the data map cannot be written

Only permission errors were silenced: opening a run failed on e.g. a
read-only filesystem or a full disk.
---
 karabo_data/run_files_map.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 0f768ce..835d3bc 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -23,12 +23,11 @@ def atomic_dump(obj, path, **kwargs):
     try:
         with open(fd, 'w') as f:
             json.dump(obj, f, **kwargs)
+        os.replace(tmp_filename, path)
     except:
         os.unlink(tmp_filename)
         raise
 
-    os.replace(tmp_filename, path)
-
 
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
@@ -128,8 +127,8 @@ class RunFilesMap:
         """Save the cache if needed
 
         This skips writing the cache out if all the data files already have
-        valid cache entries. It also silences permission errors from writing
-        the cache file.
+        valid cache entries. It also silences errors (such as not having
+        permission) from writing the cache file.
         """
         need_save = False
 
@@ -168,7 +167,8 @@ class RunFilesMap:
                 try:
                     os.makedirs(osp.dirname(path), exist_ok=True)
                     atomic_dump(save_data, path, indent=2)
-                except PermissionError:
+                except OSError:
+                    # E.g. no permission, read-only filesystem, disk full
                     continue
                 else:
                     dt = time.monotonic() - t0
-- 
2.43.0


From 6bb37f9f76e99f6e3300951bc4c0707aab55f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 15/55] fix: ignore data maps which cannot be read or
 understood

The map is written with permissions for its owner only, so opening the same
run failed for other users. It also failed if the contents were not as
expected.
---
 karabo_data/run_files_map.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 835d3bc..83fb258 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -29,6 +29,22 @@ def atomic_dump(obj, path, **kwargs):
         raise
 
 
+def is_map_entry(info):
+    """Check that an entry loaded from a cached map is structured as expected"""
+    def is_list_of(key, typ):
+        val = info.get(key)
+        return isinstance(val, list) and all(isinstance(v, typ) for v in val)
+
+    return (
+        isinstance(info, dict)
+        and isinstance(info.get('filename'), str)
+        and 'mtime' in info and 'size' in info
+        and is_list_of('train_ids', int)
+        and is_list_of('control_sources', str)
+        and is_list_of('instrument_sources', str)
+    )
+
+
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
 
@@ -83,15 +99,22 @@ class RunFilesMap:
         for path in self.candidate_paths:
             try:
                 with open(path) as f:
-                    loaded_data = json.load(f)
+                    data = json.load(f)
+            except (OSError, ValueError):
+                # Missing, not readable, or not valid JSON text
+                continue
 
-                self.cache_file = path
-                log.debug("Loaded cached files map from %s", path)
-                break
-            except (FileNotFoundError, json.JSONDecodeError):
-                pass
+            if not isinstance(data, list):
+                continue
+
+            loaded_data = data
+            self.cache_file = path
+            log.debug("Loaded cached files map from %s", path)
+            break
 
         for info in loaded_data:
+            if not is_map_entry(info):
+                continue
             filename = info['filename']
             try:
                 st = os.stat(osp.join(self.directory, filename))
-- 
2.43.0


From 001052202bde2930f488348ba724c9c0ea4f4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 16/55] fix: report missing or unreadable data and indexes in
 validation

The validator stopped with an exception, without reporting other problems.
---
 karabo_data/validation.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index a4a7950..7ec34d0 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -73,11 +73,31 @@ class FileValidator:
     def check_indices(self):
         for src in self.file.instrument_sources:
             src_groups = set()
-            for key in self.file.get_keys(src):
+            unreadable_groups = set()
+
+            try:
+                keys = self.file.get_keys(src)
+            except KeyError:
+                self.record('No data for source', dataset='INSTRUMENT/' + src)
+                continue
+
+            for key in keys:
                 ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
                 group = key.split('.', 1)[0]
+                if group in unreadable_groups:
+                    continue
+
+                try:
+                    first, count = self.file.get_index(src, group)
+                except Exception as e:
+                    self.record(
+                        'Could not read index',
+                        dataset='INDEX/{}/{}'.format(src, group), error=e,
+                    )
+                    unreadable_groups.add(group)
+                    continue
+
                 src_groups.add((src, group))
-                first, count = self.file.get_index(src, group)
                 if first.shape != count.shape:
                     continue  # Recorded as a problem below
                 data_dim0 = self.file.file[ds_path].shape[0]
-- 
2.43.0


From 3b3e8ecabc7c646d29528dbd7c593d8e70562b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 17/55] fix: report runs with conflicting sources in validation

The validator stopped with an exception, without reporting other problems.
---
 karabo_data/validation.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 7ec34d0..042ccfa 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -182,7 +182,7 @@ class RunValidator:
             else:
                 files.append(fa)
 
-        self.run = DataCollection(files)
+        self.files = files
         self.problems = []
 
     def validate(self):
@@ -194,6 +194,7 @@ class RunValidator:
         self.problems = []
         self.check_files_openable()
         self.check_files()
+        self.check_source_conflicts()
         self.check_files_map()
         return self.problems
 
@@ -201,21 +202,29 @@ class RunValidator:
         for path, err in self.files_excluded:
             self.problems.append(dict(msg="Could not open file", file=path, error=err))
 
-        if not self.run.files:
+        if not self.files:
             self.problems.append(
                 dict(msg="No usable files found", directory=self.run_dir)
             )
 
     def check_files(self):
-        for f in self.run.files:
+        for f in self.files:
             fv = FileValidator(f)
             self.problems.extend(fv.run_checks())
 
+    def check_source_conflicts(self):
+        try:
+            DataCollection(self.files)
+        except ValueError as e:
+            self.problems.append(dict(
+                msg="Conflicting data sources", directory=self.run_dir, error=e
+            ))
+
     def check_files_map(self):
         # Outdated cache entries we can detect with the file's stat() are not a
         # problem. Loading the cache file will discard those automatically.
         cache = RunFilesMap(self.run_dir)
-        for f_access in self.run.files:
+        for f_access in self.files:
             f_cache = cache.get(f_access.filename)
             if f_cache is None:
                 continue  # No cache entry, or outdated: not a problem
-- 
2.43.0


From 036f591850889096e6fc65bd558cbbe162421a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 18/55] fix: validate run directories with special characters
 in the name

E.g. brackets in the path were taken as a glob pattern, so no files were found.
---
 karabo_data/validation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 042ccfa..89bae7b 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -1,6 +1,5 @@
 from argparse import ArgumentParser
 from functools import partial
-from glob import glob
 import h5py
 import numpy as np
 import os
@@ -174,7 +173,11 @@ class RunValidator:
         self.files_excluded = []
         self.run_dir = run_dir
 
-        for path in glob(os.path.join(run_dir, '*.h5')):
+        for name in sorted(os.listdir(run_dir)):
+            if not name.endswith('.h5'):
+                continue
+
+            path = os.path.join(run_dir, name)
             try:
                 fa = FileAccess(path)
             except Exception as e:
-- 
2.43.0


From 53b4e8f97668c20231e516c3160bafa04ba3d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 19/55] fix: report counts too large for first + count, and
 sources with no keys, in validation

---
 karabo_data/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 89bae7b..82a0e44 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -77,6 +77,9 @@ class FileValidator:
             try:
                 keys = self.file.get_keys(src)
             except KeyError:
+                keys = set()
+
+            if not keys:
                 self.record('No data for source', dataset='INSTRUMENT/' + src)
                 continue
 
@@ -100,7 +103,8 @@ class FileValidator:
                 if first.shape != count.shape:
                     continue  # Recorded as a problem below
                 data_dim0 = self.file.file[ds_path].shape[0]
-                if np.any((first + count) > data_dim0):
+                # Very large counts would overflow when added to first
+                if np.any((first + count) > data_dim0) or np.any(count > data_dim0):
                     max_end = (first + count).max()
                     self.record(
                         'Index referring to data ({}) outside dataset ({})'.format(
-- 
2.43.0


From f3742453fb1cb9835cf33cafffd8e499b6dc2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:30 +0000
Subject: [PATCH 20/55] fix: read detector data from files which lack some of
 the selected trains

---
 karabo_data/components.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 6b57e27..dbbf5f8 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -240,17 +240,18 @@ class MPxDetectorBase:
                 if chunk_tids[-1] < f.train_ids[0] or chunk_tids[0] > f.train_ids[-1]:
                     # No overlap
                     continue
-                first_tid = max(chunk_tids[0], f.train_ids[0])
-                first_train_idx = np.nonzero(f.train_ids == first_tid)[0][0]
-                last_tid = min(chunk_tids[-1], f.train_ids[-1])
-                last_train_idx = np.nonzero(f.train_ids == last_tid)[0][0]
+                # The file may lack some trains of the chunk
+                train_ixs = np.nonzero(np.isin(f.train_ids, chunk_tids))[0]
+                if train_ixs.size == 0:
+                    continue
+                first_train_idx, last_train_idx = train_ixs[0], train_ixs[-1]
                 chunk_firsts = firsts[first_train_idx : last_train_idx + 1]
                 chunk_counts = counts[first_train_idx : last_train_idx + 1]
                 data_slice = slice(
                     chunk_firsts[0], int(chunk_firsts[-1] + chunk_counts[-1])
                 )
                 trainids = np.repeat(
-                    np.arange(first_tid, last_tid + 1, dtype=np.uint64),
+                    f.train_ids[first_train_idx : last_train_idx + 1],
                     chunk_counts.astype(np.intp),
                 )
                 pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)][
-- 
2.43.0


From 51e5b291db869660e6970cd1bdc35f1130717cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 21/55] fix: refuse negative pulse selections, allow unsorted &
 repeated ones

---
 karabo_data/components.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index dbbf5f8..8a44251 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -63,18 +63,16 @@ def _check_pulse_selection(pulses):
         return type(pulses)(slice(start, stop, step))
 
     # Convert everything except slices to numpy arrays
-    elif isinstance(pulses.value, int):
-        val = np.array([val], dtype=np.uint64)
-    else:
-        val = np.asarray(val, dtype=np.uint64)
-
+    # Check before converting to unsigned integers, which would wrap around.
+    val = np.atleast_1d(val)
     if (val < 0).any():
         if isinstance(pulses, by_id):
             raise ValueError("Pulse IDs cannot be negative")
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val)
+    # Unique & sorted, because h5py needs indexes in increasing order
+    return type(pulses)(np.unique(val).astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 2aad614a0e87b563d05a8fea4d7f90425facdb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 22/55] fix: leave out detector modules without any of the
 selected trains

---
 karabo_data/components.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 8a44251..c4f60d7 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -93,7 +93,6 @@ class MPxDetectorBase:
 
         data = data.select([(src, '*') for src in source_to_modno])
         self.detector_name = detector_name
-        self.source_to_modno = source_to_modno
 
         # pandas' missing-data handling converts the data to floats if there
         # are any gaps - so fill them with 0s and convert back to uint64.
@@ -113,6 +112,12 @@ class MPxDetectorBase:
         self.frames_per_train = data_count_values.pop()
         self.data = self._select_trains(data, mod_data_counts, min_modules)
 
+        # Modules with no data for any of the selected trains are left out,
+        # as if these trains had been selected beforehand.
+        self.source_to_modno = source_to_modno = {
+            s: m for (s, m) in source_to_modno.items() if s in self.data.all_sources
+        }
+
         # This should be a reversible 1-to-1 mapping
         self.modno_to_source = {m: s for (s, m) in source_to_modno.items()}
         assert len(self.modno_to_source) == len(self.source_to_modno)
-- 
2.43.0


From d2d3808bd39257bdebe6ebe9de6058e24c2a8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 23/55] fix: keep absolute paths of files opened by relative
 path

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index ef65ae4..1cb7b27 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -76,7 +76,8 @@ class FileAccess:
     _format_version = None
 
     def __init__(self, filename, _cache_info=None):
-        self.filename = filename
+        # Files may be opened later, when the working directory has changed
+        self.filename = osp.abspath(filename)
 
         if _cache_info:
             self.train_ids = _cache_info['train_ids']
-- 
2.43.0


From f1ce83038149e9813e36d1de323639d7b834230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 24/55] fix: read sources in train order when the trains of
 their files interleave

---
 karabo_data/reader.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 1cb7b27..cfda601 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -513,9 +513,7 @@ class DataCollection:
             _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(
-            seq_series, key=lambda s: s.index[0] if len(s) else 0
-        ))
+        ser = pd.concat(seq_series).sort_index()
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
@@ -590,9 +588,9 @@ class DataCollection:
 
         # Leave out files with no data for this source, unless none have any
         seq_series = [s for s in seq_series if len(s)] or seq_series[:1]
-        ser = pd.concat(sorted(
-            seq_series, key=lambda s: s.index[0] if len(s) else 0
-        ))
+        ser = pd.concat(seq_series)
+        # Put trains in order, keeping the entries of each train in order
+        ser = ser.iloc[np.argsort(ser.index.get_level_values(0), kind='stable')]
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
@@ -1043,6 +1041,11 @@ class DataCollection:
         else:
             key_group = ''
 
+        # Trains from another file may come in between those of one file
+        all_train_ids = np.sort(np.concatenate(
+            [f.train_ids for f in self._source_index[source]] or [[]]
+        ))
+
         for file in self._source_index[source]:
             file_has_data = False
             firsts, counts = file.get_index(source, key_group)
@@ -1051,13 +1054,16 @@ class DataCollection:
             selected = np.isin(file.train_ids, self.train_ids)
 
             # Assemble contiguous chunks of data from this file
+            rank = np.searchsorted(all_train_ids, file.train_ids)
             for _from, _to in contiguous_regions(selected):
                 file_has_data = True
-                yield DataChunk(file, source, key,
-                                first=firsts[_from],
-                                train_ids=file.train_ids[_from:_to],
-                                counts=counts[_from:_to],
-                                )
+                splits = _from + 1 + np.nonzero(np.diff(rank[_from:_to]) > 1)[0]
+                for start, stop in zip([_from, *splits], [*splits, _to]):
+                    yield DataChunk(file, source, key,
+                                    first=firsts[start],
+                                    train_ids=file.train_ids[start:stop],
+                                    counts=counts[start:stop],
+                                    )
 
             if not file_has_data:
                 # Make an empty chunk to let e.g. get_array find the shape
-- 
2.43.0


From 0007a077aade9ae7ba7c4214d229112982c2c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 25/55] fix: order detector data by train when the files
 interleave

---
 karabo_data/components.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index c4f60d7..ddd0fe6 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -309,9 +309,13 @@ class MPxDetectorBase:
                     .format(source, key)
             )
 
-        return xarray.concat(
+        arr = xarray.concat(
             sorted(non_empty, key=lambda a: a.coords['train'][0]), dim='train'
         )
+        if not arr.indexes['train'].is_monotonic_increasing:
+            # The trains in different files are interleaved
+            arr = arr.sortby('train')
+        return arr
 
     def get_array(self, key, pulses=by_index[:]):
         """Get a labelled array of detector data
-- 
2.43.0


From 4b6a4e34c63c8459a61bacc9c1e6f4afa274be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 26/55] fix: stop streaming even if no client or no data comes

---
 karabo_data/export.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index df25cdb..9ce77df 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -12,7 +12,7 @@ program. If not, see <https://opensource.org/licenses/BSD-3-Clause>
 
 from argparse import ArgumentParser
 import os.path as osp
-from queue import Queue
+from queue import Empty, Queue
 from threading import Event, Thread
 from time import time
 
@@ -26,6 +26,11 @@ __all__ = ['ZMQStreamer', 'serve_files']
 
 
 class REPInterface(Thread):
+    # How often to check if we should stop, while waiting (seconds)
+    poll_interval = 0.1
+    # How long to wait for sending the last message after stopping (seconds)
+    linger = 10
+
     def __init__(self, context, port, buffer):
         super(REPInterface, self).__init__()
         self.context = context
@@ -39,13 +44,27 @@ class REPInterface(Thread):
             interface.bind('tcp://*:{}'.format(self.port))
 
             while not self.stopped():
+                if not interface.poll(self.poll_interval * 1000):
+                    continue
                 req = interface.recv()
                 if req != b'next':
                     raise RuntimeError('Unknown request:', req)
-                interface.send_multipart(self.buffer.get())
+                msg = self.next_message()
+                if msg is not None:
+                    interface.send_multipart(msg)
         finally:
-            interface.setsockopt(zmq.LINGER, 0)
+            interface.setsockopt(zmq.LINGER, int(self.linger * 1000))
             interface.close()
+            # Wait until the socket is closed and the last message was sent
+            self.context.term()
+
+    def next_message(self):
+        """Wait for data to send. Gives None if we should stop instead."""
+        while not self.stopped():
+            try:
+                return self.buffer.get(timeout=self.poll_interval)
+            except Empty:
+                pass
 
     def stop(self):
         self._stop_event.set()
@@ -88,7 +107,6 @@ class ZMQStreamer:
         is fed in.
     """
     def __init__(self, port, maxlen=10, protocol_version='2.2', dummy_timestamps=False):
-        self._context = zmq.Context()
         self.port = port
         if protocol_version not in {'1.0', '2.2'}:
             raise ValueError("Unknown protocol version %r" % protocol_version)
@@ -108,7 +126,7 @@ class ZMQStreamer:
     def start(self):
         """Start a zmq.REP socket.
         """
-        self._interface = REPInterface(self._context, self.port, self._buffer)
+        self._interface = REPInterface(zmq.Context(), self.port, self._buffer)
         self._interface.daemon = True
         self._interface.start()
 
-- 
2.43.0


From 6c3157a1b4499952b8c296511850e692d21eb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 27/55] fix: send the trains still queued before serve_files
 ends

---
 karabo_data/export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 9ce77df..ac3c4fd 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -14,7 +14,7 @@ from argparse import ArgumentParser
 import os.path as osp
 from queue import Empty, Queue
 from threading import Event, Thread
-from time import time
+from time import sleep, time
 
 import msgpack
 import numpy as np
@@ -52,6 +52,7 @@ class REPInterface(Thread):
                 msg = self.next_message()
                 if msg is not None:
                     interface.send_multipart(msg)
+                    self.buffer.task_done()
         finally:
             interface.setsockopt(zmq.LINGER, int(self.linger * 1000))
             interface.close()
@@ -136,6 +137,11 @@ class ZMQStreamer:
             self._interface.join()
             self._interface = None
 
+    def wait_sent(self):
+        """Wait until all the data fed in was sent to clients"""
+        while self._buffer.unfinished_tasks and self._interface.is_alive():
+            sleep(self._interface.poll_interval)
+
     def _serialize(self, data, metadata=None):
         if not metadata:
             metadata = {src: v.get('metadata', {}) for src, v in data.items()}
@@ -261,6 +267,7 @@ def serve_files(path, port, source_glob='*', key_glob='*', **kwargs):
     for tid, train_data in data.trains():
         if train_data:
             streamer.feed(train_data)
+    streamer.wait_sent()
     streamer.stop()
 
 
-- 
2.43.0


From 6bc885c5e74889a123bd17033f07dd62ddee1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 28/55] fix: use --source and --key options of
 karabo-bridge-serve-files

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index ac3c4fd..39a4cac 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -285,4 +285,4 @@ def main(argv=None):
     )
     args = ap.parse_args(argv)
 
-    serve_files(args.path, args.port)
+    serve_files(args.path, args.port, source_glob=args.source, key_glob=args.key)
-- 
2.43.0


From f66985546eb7e5bff033bdc5d1806e4dbc51e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 29/55] fix: don't change data fed to the streamer, send
 metadata with protocol 1.0

---
 karabo_data/export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 39a4cac..64eef74 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -155,12 +155,19 @@ class ZMQStreamer:
                 'timestamp.sec': sec,
                 'timestamp.frac': frac,
             }
+            # Don't change the metadata we were given
+            metadata = {src: dict(v) for src, v in metadata.items()}
             for src in data.keys():
                 if 'timestamp' not in metadata[src]:
                     metadata[src].update(update_dummy)
 
         if self.protocol_version == '1.0':
-            return [self.pack(data)]
+            # In this version, metadata is part of the data
+            return [self.pack({
+                src: dict(props, metadata=metadata[src])
+                if metadata.get(src) else props
+                for src, props in data.items()
+            })]
 
         msg = []
         for src, props in sorted(data.items()):
-- 
2.43.0


From 763b0844600e45ac0343ecae9ba22ef08cac562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 30/55] fix: stream numpy boolean values

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 64eef74..96a1a99 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -176,7 +176,7 @@ class ZMQStreamer:
             for key, value in props.items():
                 if isinstance(value, np.ndarray):
                     arrays.append((key, value))
-                elif isinstance(value, np.number):
+                elif isinstance(value, (np.number, np.bool_)):
                     # Convert numpy type to native Python type
                     main_data[key] = value.item()
                 else:
-- 
2.43.0


From 090d8a253b6756127d581f2c9f28c3ee4155adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 31/55] fix: fill missing modules with 0 for integer data in
 stack_detector_data

---
 karabo_data/stacking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6eb920f..248fb36 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -53,7 +53,7 @@ def stack_data(train, data, axis=-3, xcept=()):
     return np.stack(ordered_arrays, axis=axis)
 
 
-def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
+def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=None,
                         real_array=True):
     """Stack data from detector modules in a train.
 
@@ -117,6 +117,8 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
 
     dtype = dtypes.pop()
     shape = shapes.pop()
+    if fillvalue is None:
+        fillvalue = np.nan if dtype.kind in 'fc' else 0
     stack = StackView(
         modno_arrays, modules, shape, dtype, fillvalue, stack_axis=axis
     )
-- 
2.43.0


From b8f7962f2113e71bf1b871395b569495d507ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 32/55] fix: keep the stacking axis and check module numbers
 when indexing a stack view

---
 karabo_data/stacking.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 248fb36..8230841 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -170,6 +170,8 @@ class StackView:
         mod_slices = slices[:self._stack_axis] + slices[self._stack_axis + 1:]
 
         if isinstance(modno, int):
+            if not -self._nmodules <= modno < self._nmodules:
+                raise IndexError(modno)
             if modno < 0:
                 modno += self._nmodules
             return self._get_single_mod(modno, mod_slices)
@@ -184,8 +186,6 @@ class StackView:
         try:
             mod_data = self._data[modno]
         except KeyError:
-            if modno >= self._nmodules:
-                raise IndexError(modno)
             mod_data = np.full(self._mod_shape, self._fillvalue, self.dtype)
             self._data[modno] = mod_data
 
@@ -196,8 +196,11 @@ class StackView:
         new_data = {modno: self._get_single_mod(modno, mod_slices)
                     for modno in self._data}
         new_mod_shape = list(new_data.values())[0].shape
+        # Dimensions before the stacking axis may be gone now
+        dropped = [isinstance(s, (int, np.integer))
+                   for s in mod_slices[:self._stack_axis]].count(True)
         return StackView(new_data, self._nmodules, new_mod_shape, self.dtype,
-                         self._fillvalue)
+                         self._fillvalue, self._stack_axis - dropped)
 
     def asarray(self):
         """Copy this data into a real numpy array
-- 
2.43.0


From fd51484c6ba19767c50b2531ce51bac56245948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 33/55] fix: do not scale AGIPD pixels by the unit of quadrant
 positions

---
 karabo_data/geometry2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e2e2a47..167f215 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -654,8 +654,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                            + x_orient * tile_width * a
                 tiles.append(GeometryFragment(
                     corner_pos=np.array([corner_x, corner_y, 0.]),
-                    ss_vec=np.array([x_orient, 0, 0]) * unit,
-                    fs_vec=np.array([0, y_orient, 0]) * unit,
+                    ss_vec=np.array([x_orient, 0, 0]) * cls.pixel_size,
+                    fs_vec=np.array([0, y_orient, 0]) * cls.pixel_size,
                     ss_pixels=cls.frag_ss_pixels,
                     fs_pixels=cls.frag_fs_pixels,
                 ))
-- 
2.43.0


From 574d16c0520abc1c133ef0fc1ddd2719fe2b3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 34/55] fix: convert to pixels in position_modules_interpolate

---
 karabo_data/geometry2/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 167f215..495ca3b 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -802,11 +802,12 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
             for j, (tile, tile_data) in enumerate(zip(module, tiles_data)):
                 # We store (x, y, z), but numpy indexing, and hence affine_transform,
                 # work like [y, x]. Rearrange the numbers:
-                fs_vec_yx = tile.fs_vec[:2][::-1]
-                ss_vec_yx = tile.ss_vec[:2][::-1]
+                # All in pixels, like the output.
+                fs_vec_yx = tile.fs_vec[:2][::-1] / self.pixel_size
+                ss_vec_yx = tile.ss_vec[:2][::-1] / self.pixel_size
 
                 # Offset by centre to make all coordinates positive
-                corner_pos_yx = tile.corner_pos[:2][::-1] + centre
+                corner_pos_yx = tile.corner_pos[:2][::-1] / self.pixel_size + centre
 
                 # Make the rotation matrix
                 rotn = np.stack((ss_vec_yx, fs_vec_yx), axis=-1)
@@ -814,7 +815,9 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                 # affine_transform takes a mapping from *output* to *input*.
                 # So we reverse the forward transformation.
                 transform = np.linalg.inv(rotn)
-                offset = np.dot(rotn, corner_pos_yx)  # this seems to work, but is it right?
+                # Array indexes refer to the centres of pixels, 0.5 from corners.
+                # Rounding keeps edges which coincide from being left out.
+                offset = np.round(np.dot(transform, 0.5 - corner_pos_yx) - 0.5, 6)
 
                 affine_transform(
                     tile_data,
-- 
2.43.0


From 8aba70cc8f93ce4c7323d5b0a00f6346f24b1252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 35/55] fix: coffset is in metres in CrystFEL geometry files

---
 karabo_data/geometry2/__init__.py     | 3 ++-
 karabo_data/geometry2/crystfel_fmt.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 495ca3b..5d24242 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -33,7 +33,8 @@ class GeometryFragment:
     @classmethod
     def from_panel_dict(cls, d):
         res = d['res']
-        corner_pos = np.array([d['cnx'], d['cny'], d['coffset']]) / res
+        # Corners are in pixels, but coffset is in metres
+        corner_pos = np.array([d['cnx'] / res, d['cny'] / res, d['coffset']])
         ss_vec = np.array([d['ssx'], d['ssy'], d['ssz']]) / res
         fs_vec = np.array([d['fsx'], d['fsy'], d['fsz']]) / res
         ss_pixels = d['max_ss'] - d['min_ss'] + 1
diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index ace71a3..9b94867 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -73,7 +73,7 @@ def frag_to_crystfel(fragment, p, a, ss_slice, fs_slice, dims, pixel_size):
         fs_vec=_crystfel_format_vec(fragment.fs_vec/ pixel_size),
         corner_x=c[0],
         corner_y=c[1],
-        coffset=c[2],
+        coffset=fragment.corner_pos[2],  # In metres, unlike the corners
     )
 
 def write_crystfel_geom(self, filename, *,
-- 
2.43.0


From 8315f703ec7a983b19c1e75a34d7735d21229a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 36/55] fix: write small numbers in CrystFEL directions without
 exponents

---
 karabo_data/geometry2/crystfel_fmt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index 9b94867..9a7814f 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -45,9 +45,11 @@ PANEL_TEMPLATE = """
 def _crystfel_format_vec(vec):
     """Convert an array of 3 numbers to CrystFEL format like "+1.0x -0.1y"
     """
-    s = '{:+}x {:+}y'.format(*vec[:2])
+    # The format doesn't allow for exponents, like 1e-05
+    x, y, z = [np.format_float_positional(v, sign=True, trim='0') for v in vec]
+    s = '{}x {}y'.format(x, y)
     if vec[2] != 0:
-        s += ' {:+}z'.format(vec[2])
+        s += ' {}z'.format(z)
     return s
 
 
-- 
2.43.0


From dfb679d622fae0dea0cc7efa5054a4672af518c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 37/55] fix: compare AGIPD geometries in pixel units

---
 karabo_data/geometry2/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 5d24242..bd4ca40 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -715,6 +715,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         from matplotlib.collections import PatchCollection
         from matplotlib.patches import Polygon, FancyArrow
 
+        px_scale = self._get_plot_scale_factor('px')
+
         fig = plt.figure(figsize=(10, 10))
         ax = fig.add_subplot(1, 1, 1)
 
@@ -722,23 +724,23 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         arrows = []
         for p, module in enumerate(self.modules):
             for a, fragment in enumerate(module):
-                corners = fragment.corners()[:, :2]  # Drop the Z dimension
+                corners = fragment.corners()[:, :2] * px_scale  # Drop the Z dimension
                 corner1, corner1_opp = corners[0], corners[2]
 
                 rects.append(Polygon(corners))
                 if a in {0, 7}:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px_scale
                     ax.text(cx, cy, str(a),
                             verticalalignment='center',
                             horizontalalignment='center')
                 elif a == 4:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() * px_scale
                     ax.text(cx, cy, 'p{}'.format(p),
                             verticalalignment='center',
                             horizontalalignment='center')
 
                 panel2 = other.modules[p][a]
-                corners2 = panel2.corners()[:, :2]
+                corners2 = panel2.corners()[:, :2] * px_scale
                 corner2, corner2_opp = corners2[0], corners2[2]
                 dx, dy = corner2 - corner1
                 if not (dx == dy == 0):
-- 
2.43.0


From 39c49b09305e81f6d959ccd61eb6017fea47eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 38/55] fix: accept any integer type for module numbers in
 data_coords_to_positions

---
 karabo_data/geometry2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index bd4ca40..940db46 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -578,7 +578,9 @@ class DetectorGeometryBase:
         tilenos, tile_ss, tile_fs = self._module_coords_to_tile(slow_scan, fast_scan)
 
         # The indexes of the relevant tiles in the arrays assembled above
-        all_tiles_ix = (module_no * self.n_tiles_per_module) + tilenos
+        all_tiles_ix = (
+            module_no.astype(np.intp) * self.n_tiles_per_module + tilenos
+        )
 
         # Select the relevant tile geometry for each set of coordinates
         coords_tile_corner = tiles_corner_pos[all_tiles_ix]
-- 
2.43.0


From 93257e88572eb2892c18d5499c2fbd395148a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 39/55] fix: use the unit for the tiles in LPDGeometry

---
 karabo_data/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry.py b/karabo_data/geometry.py
index 7157a40..8ce32e6 100644
--- a/karabo_data/geometry.py
+++ b/karabo_data/geometry.py
@@ -75,7 +75,7 @@ class GeometryFragment:
     @classmethod
     def from_h5_group(cls, group, unit=1e-3):
         children = {
-            key: GeometryFragment.from_h5_group(val)
+            key: GeometryFragment.from_h5_group(val, unit=unit)
             for (key, val) in group.items()
             if isinstance(val, h5py.Group)
         }
-- 
2.43.0


From 8459d3c60b1cdeae2dc62bcfe351ae0d7be19662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 40/55] fix: draw DSSC images to scale in metres

---
 karabo_data/geometry2/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 940db46..9d502d8 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -990,7 +990,8 @@ class SnappedGeometry:
         _extent = np.array((min_x - 0.5, max_x + 0.5, min_y - 0.5, max_y + 0.5))
         cross_size = 20
         if axis_units == 'm':
-            _extent *= self.geom.pixel_size
+            # Pixels may not be square (DSSC)
+            _extent *= self.geom._pixel_shape.repeat(2)
             cross_size *= self.geom.pixel_size
 
         # Use a dark grey for missing data
@@ -1474,7 +1475,8 @@ class DSSC_1MGeometry(DetectorGeometryBase):
                                     **kwargs)
         # Squash image to physically equal aspect ratio, so a circle projected
         # on the detector looks like a circle on screen.
-        ax.set_aspect(204/236.)
+        if axis_units == 'px':
+            ax.set_aspect(204/236.)
         return ax
 
     @classmethod
-- 
2.43.0


From 5465d0df268cf7896780708162ca5de77be3c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 41/55] fix: let lsxfel summarise a file of control data among
 other paths

The attribute it used does not exist.
---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 2e20ab6..66977f0 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -55,7 +55,7 @@ def summarise_file(path):
             len(h5file.train_ids), dinfo['frames_per_train'], dinfo['total_frames']
         ))
     else:
-        print("  {} trains, {} sources".format(ntrains, len(h5file.sources)))
+        print("  {} trains, {} sources".format(ntrains, len(h5file.all_sources)))
 
 
 def describe_run(path):
-- 
2.43.0


From 9eab80cdea2d3c2c353119c245a3a5dba1f00cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 42/55] fix: describe files from unknown data sources as text

A tuple was printed.
---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 96d6a3f..46f7e9b 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -195,7 +195,7 @@ class FilenameInfo:
                 self._rawcorr_descr.get(rawcorr, '?'), name, moduleno
             )
         else:
-            self.description = "Unknown data source ({})", datasrc
+            self.description = "Unknown data source ({})".format(datasrc)
 
 
 def find_proposal(propno):
-- 
2.43.0


From 3f589583c34088cbbc4de93489d5370a0d14c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 43/55] fix: do not take other files with a detector's name for
 detector modules

Files such as RAW-R0001-AGIPD1MCTRL00-S00000.h5 hold no detector data, so
lsxfel failed looking for it.
---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 46f7e9b..6195e5e 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -182,7 +182,7 @@ class FilenameInfo:
         nameparts = self.basename[:-3].split('-')
         assert len(nameparts) == 4, self.basename
         rawcorr, runno, datasrc, segment = nameparts
-        m = re.match(r'([A-Z]+)(\d+)', datasrc)
+        m = re.match(r'([A-Z]+)(\d+)$', datasrc)
 
         if m and m.group(1) == 'DA':
             self.description = "Aggregated data"
-- 
2.43.0


From ff40747b5526a8ad9e9394fde94f107c928202ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 44/55] fix: let lsxfel describe data files with any name

Files need not be named as data acquisition does, e.g. if they were written
with DataCollection.write().
---
 karabo_data/read_machinery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 6195e5e..84df722 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -180,7 +180,9 @@ class FilenameInfo:
     def __init__(self, path):
         self.basename = osp.basename(path)
         nameparts = self.basename[:-3].split('-')
-        assert len(nameparts) == 4, self.basename
+        if len(nameparts) != 4:
+            self.description = "Unknown data source"
+            return
         rawcorr, runno, datasrc, segment = nameparts
         m = re.match(r'([A-Z]+)(\d+)$', datasrc)
 
-- 
2.43.0


From 8bd53a9a246a66805d4d6addd3131030b5fffa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 45/55] fix: count only data files in lsxfel's summary of a run

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 66977f0..119247e 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -76,7 +76,7 @@ def summarise_run(path, indent=''):
     segment_sequences = defaultdict(list)
     n_detector = n_other = 0
     for f in sorted(os.listdir(path)):
-        m = re.match(r'(.+)-S\d+\.h5', osp.basename(f))
+        m = re.match(r'(.+)-S\d+\.h5$', osp.basename(f))
         if m:
             segment_sequences[m.group(1)].append(f)
             if FilenameInfo(f).is_detector:
-- 
2.43.0


From 71ea4d96d0664bdf892ff659a2c8fd0389c6bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 46/55] fix: let lsxfel list all runs if one has no data files

The first such run ended the listing with an error.
---
 karabo_data/lsxfel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 119247e..313fc67 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -85,7 +85,8 @@ def summarise_run(path, indent=''):
                 n_other += 1
 
     if len(segment_sequences) < 1:
-        raise ValueError("No data files recognised in %s" % path)
+        print("{}{} : No data files recognised".format(indent, basename))
+        return
 
     # Take the shortest group of segments to make reading quicker
     first_group = sorted(segment_sequences.values(), key=len)[0]
-- 
2.43.0


From 45743a32c1a22d4fe8855dfd47f272d8acbd3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 47/55] fix: show information about data without any trains

---
 karabo_data/reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index cfda601..7b05c8f 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1085,10 +1085,14 @@ class DataCollection:
         """Show information about the selected data.
         """
         # time info
-        first_train = self.train_ids[0]
-        last_train = self.train_ids[-1]
         train_count = len(self.train_ids)
-        span_sec = (last_train - first_train) / 10
+        if train_count == 0:
+            first_train = last_train = '-'
+            span_sec = 0
+        else:
+            first_train = self.train_ids[0]
+            last_train = self.train_ids[-1]
+            span_sec = (last_train - first_train) / 10
         span_txt = str(datetime.timedelta(seconds=span_sec))
 
         detector_modules = {}
-- 
2.43.0


From d3968bd877d12d7eb7cab1eb9095750e1f0cbcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 48/55] fix: show the names of directories given with a slash
 at the end

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 313fc67..caa97ab 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -104,7 +104,7 @@ def main(argv=None):
     )
     ap.add_argument('paths', nargs='*', help="Files/folders to look at")
     args = ap.parse_args(argv)
-    paths = args.paths or [os.path.abspath(os.getcwd())]
+    paths = [p.rstrip('/') or p for p in args.paths] or [os.path.abspath(os.getcwd())]
 
     if len(paths) == 1:
         path = paths[0]
-- 
2.43.0


From cbcfefc18b656159113e55aac02d7b921aa337f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 49/55] fix: let QuickView take the data when it is created

The truth value of an array is ambiguous.
---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7ad4850..c85b46c 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -51,7 +51,7 @@ class QuickView:
     _current_index = 0
 
     def __init__(self, data=None):
-        if data:
+        if data is not None:
             self.data = data
 
     @property
-- 
2.43.0


From 444e2cfb011951426c7ec88ba7cf79e0dcdb042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 50/55] fix: show the frame QuickView's position was set to

The method it used does not exist.
---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index c85b46c..7615b78 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -63,7 +63,7 @@ class QuickView:
         if self._data is not None:
             if 0 <= pos < len(self):
                 self._current_index = pos
-                self.show()
+                self.display()
             else:
                 err = "value should be 0 < value < " "{}".format(self._data.shape[0])
                 raise ValueError(err)
-- 
2.43.0


From 1b2d8aeb7b14609d75a7d2da3e9061d59545cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 51/55] fix: stop QuickView at the last frame

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7615b78..b091821 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -82,7 +82,7 @@ class QuickView:
         self.display()
 
     def next(self):
-        if self._current_index < len(self):
+        if self._current_index < len(self) - 1:
             self._current_index += 1
             self.display()
 
-- 
2.43.0


From a30b8da5d47829e1c604d65dbdebe23d9fadc950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 52/55] fix: convert files of format 1.0 to CBF

---
 karabo_data/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index b091821..3d3e33e 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -135,7 +135,11 @@ def numpy_to_cbf(np_array, index=0, header=None):
 def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     """Conversion from HDF5 file to cbf binary image file"""
     tmpf = h5py.File(in_h5file, 'r')
-    paths = list(tmpf["METADATA/dataSourceId"])
+    # The list of data sources moved in file format 1.0
+    if "METADATA/dataFormatVersion" in tmpf:
+        paths = list(tmpf["METADATA/dataSources/dataSourceId"])
+    else:
+        paths = list(tmpf["METADATA/dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
     cbf_out = numpy_to_cbf(images, index=index)
-- 
2.43.0


From b8349a6c7ac28c85ec4fd98d2f88b7eda1d22ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 53/55] fix: write the header given to hdf5_to_cbf

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 3d3e33e..cf63eef 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -142,6 +142,6 @@ def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
         paths = list(tmpf["METADATA/dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
-    cbf_out = numpy_to_cbf(images, index=index)
+    cbf_out = numpy_to_cbf(images, index=index, header=header)
     cbf_out.write(cbf_filename)
     print("Convert {} index {} to {}".format(in_h5file, index, cbf_filename))
-- 
2.43.0


From a1332f0dd33586978fcfa6175e7930c648b7f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 54/55] fix: write source names which are not ASCII

---
 karabo_data/writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 2996bfb..d797c94 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -68,7 +68,8 @@ class FileWriter:
 
     def write_metadata(self):
         vlen_bytes = h5py.special_dtype(vlen=bytes)
-        data_sources = sorted(self.data_sources)
+        # Names are encoded as UTF-8, like in the original files
+        data_sources = [ds.encode('utf-8') for ds in sorted(self.data_sources)]
         N = len(data_sources)
 
         sources_ds = self.file.create_dataset(
@@ -79,12 +80,12 @@ class FileWriter:
         root_ds = self.file.create_dataset(
             'METADATA/root', (N,), dtype=vlen_bytes, maxshape=(None,)
         )
-        root_ds[:] = [ds.split('/', 1)[0] for ds in data_sources]
+        root_ds[:] = [ds.split(b'/', 1)[0] for ds in data_sources]
 
         devices_ds = self.file.create_dataset(
             'METADATA/deviceId', (N,), dtype=vlen_bytes, maxshape=(None,)
         )
-        devices_ds[:] = [ds.split('/', 1)[1] for ds in data_sources]
+        devices_ds[:] = [ds.split(b'/', 1)[1] for ds in data_sources]
 
     def set_writer(self):
         from . import __version__
-- 
2.43.0


From 7dab30389a43a64ee465a0e5d3f1a98b0e1aa2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 55/55] fix: check source and key names in get_dask_array

---
 karabo_data/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 7b05c8f..ee376bc 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -758,6 +758,8 @@ class DataCollection:
             Key of parameter within that device, e.g. "image.data".
         """
         import dask.array as da
+        self._check_field(source, key)
+
         chunks = sorted(
             self._find_data_chunks(source, key),
             key=lambda x: x.train_ids[0] if x.train_ids.size else 0,
-- 
2.43.0

