From eaae7b27a06a8875bddaff505e734c6ca79a7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 001/103] fix: use np.nan, np.NaN was removed in NumPy 2

---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..16e23e7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..e2cf081 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From c542773e7a02d6f92bae69702dce3eb766326bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 002/103] fix: pass HDF5 query terms as one expression so that
 variables resolve on Python 3.12

---
 nilmtk/datastore/hdfdatastore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..6c09e72 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,8 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    coords = self.store.select_as_coordinates(
+                        key=key, where=' & '.join(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -292,7 +293,8 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            coords = self.store.select_as_coordinates(
+                key, ' & '.join(terms) if terms else None)
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
-- 
2.43.0


From 7edfd2339201363df5fa760679b30c5e5c05934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 003/103] fix: define TimeFrame truthiness for Python 3

---
 nilmtk/timeframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..1537bb9 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -212,7 +212,7 @@ class TimeFrame(object):
         sliced.timeframe = self
         return sliced
 
-    def __nonzero__(self):
+    def __bool__(self):
         if self.empty:
             return False
         else:
-- 
2.43.0


From d70a09acee431e374593e582197508ab51309edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 004/103] fix: TimeFrame.slice with an empty or open-ended
 TimeFrame

---
 nilmtk/timeframe.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 1537bb9..adb2bf0 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -202,13 +202,16 @@ class TimeFrame(object):
         -------
         frame : sliced frame
         """
-        if not self.empty:
+        sliced = frame.iloc[0:0] if self.empty else frame
+        if self.start is not None:
+            sliced = sliced[sliced.index >= self.start]
+        if self.end is not None:
             if self.include_end:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index <= self.end)]
+                sliced = sliced[sliced.index <= self.end]
             else:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index < self.end)]
+                sliced = sliced[sliced.index < self.end]
+        if sliced is frame:
+            sliced = frame.copy()
         sliced.timeframe = self
         return sliced
 
-- 
2.43.0


From 67dd1e86be4a77fc4ec4aa1090af697405e08a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 005/103] fix: TimeFrame.union with an empty or open-ended
 TimeFrame

---
 nilmtk/timeframe.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index adb2bf0..1e5e75f 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -120,8 +120,15 @@ class TimeFrame(object):
 
     def union(self, other):
         """Return a single TimeFrame combining self and other."""
-        start = min(self.start, other.start)
-        end = max(self.end, other.end)
+        if self.empty:
+            return deepcopy(other)
+        if other.empty:
+            return deepcopy(self)
+        start = end = None
+        if self.start is not None and other.start is not None:
+            start = min(self.start, other.start)
+        if self.end is not None and other.end is not None:
+            end = max(self.end, other.end)
         return TimeFrame(start, end)
 
     @property
-- 
2.43.0


From 7ab3b7decac59855c63ac5c349f337c240caa7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 006/103] fix: TimeFrame.split raises ValueError for a
 half-open TimeFrame

---
 nilmtk/timeframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 1e5e75f..5a421f8 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -283,7 +283,7 @@ class TimeFrame(object):
         -------
         generator of new TimeFrame objects
         """
-        if not self:
+        if self.start is None or self.end is None:
             raise ValueError("Cannot split a TimeFrame if `start` or `end`"
                              " is None")
 
-- 
2.43.0


From 887e2af48d5ea238f2cda87d8617945117b7cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:26 +0000
Subject: [PATCH 007/103] fix: HDFDataStore.load delivers lone rows and no
 repeated last chunk

A section holding a single row was skipped, and reading a whole table with a
chunk size dividing nrows-1 raised ValueError on a chunk with only the shared
row.
---
 nilmtk/datastore/hdfdatastore.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 6c09e72..09be7a2 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,8 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i < 0:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
@@ -100,8 +100,11 @@ class HDFDataStore(DataStore):
                 section_end_i   = coords[-1]
                 del coords
 
-            slice_starts = range(section_start_i, section_end_i, chunksize)
-            n_chunks = int(np.ceil((section_end_i - section_start_i) / chunksize))
+            # Consecutive chunks share a row; a lone row is a chunk of its own.
+            slice_starts = range(section_start_i,
+                                 max(section_end_i, section_start_i + 1),
+                                 chunksize)
+            n_chunks = len(slice_starts)
 
             if n_chunks > 1:
                 self.all_sections_smaller_than_chunksize = False
@@ -340,5 +343,8 @@ def _timeframe_for_chunk(there_are_more_subchunks, chunk_i, window_intersect, in
         start = index[0]
     if end is None:
         end = index[-1]
+    if start == end:
+        # A lone row in an open-ended section
+        return TimeFrame(window_intersect.start, window_intersect.end)
 
     return TimeFrame(start, end)
-- 
2.43.0


From 731e85e7f18cb10c075674b6b92efbaaeceed474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 008/103] fix: CSVDataStore.load raises no ValueError when a
 chunk holds a single row

---
 nilmtk/datastore/csvdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..119a8bc 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -85,7 +85,11 @@ class CSVDataStore(DataStore):
                 
                 if len(subchunk)>0:
                     subchunk_end = np.max(np.nonzero(subchunk_idx))
-                    subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
+                    start, end = subchunk.index[0], subchunk.index[-1]
+                    if start == end:
+                        # the shortest TimeFrame which includes a lone row
+                        end = end + pd.Timedelta(1, unit='ns')
+                    subchunk.timeframe = TimeFrame(start, end)
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-- 
2.43.0


From 5b4722e2d8a31eaf57fb6a050cdda0b92d7ede1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 009/103] fix: CSVDataStore look-ahead skips no row when the
 index has no name

---
 nilmtk/datastore/csvdatastore.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 119a8bc..1f1ef40 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -93,7 +93,7 @@ class CSVDataStore(DataStore):
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
+                            rows_to_skip = _n_header_lines(file_path)+(chunk_idx*chunksize)+subchunk_end+1
                             try:
                                 subchunk.look_ahead = pd.read_csv(file_path, 
                                                 index_col=0, 
@@ -248,3 +248,11 @@ class CSVDataStore(DataStore):
             if key_object.building and key_object.meter:
                 abs_path += '.csv'
         return abs_path
+
+
+def _n_header_lines(file_path):
+    """Two lines of column labels and, unless the index has no name,
+    a line with nothing but the name of the index."""
+    with open(file_path) as csv_file:
+        lines = [csv_file.readline() for _ in range(3)]
+    return 2 if lines[2].partition(',')[2].strip('\r\n,') else 3
-- 
2.43.0


From d8a13770cac62dc69900d6fa3a11c2ae7c113c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 010/103] fix: CSVDataStore.load honours TimeFrame.include_end

---
 nilmtk/datastore/csvdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 1f1ef40..d3c974b 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -78,7 +78,11 @@ class CSVDataStore(DataStore):
                 if window_intersect.start:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index>=window_intersect.start))
                 if window_intersect.end:
-                    subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<window_intersect.end))
+                    subchunk_idx = np.logical_and(
+                        subchunk_idx,
+                        (chunk.index<=window_intersect.end)
+                        if window_intersect.include_end
+                        else (chunk.index<window_intersect.end))
                 if window_intersect.empty:
                     subchunk_idx = [False]*len(chunk)
                 subchunk = chunk[subchunk_idx]
-- 
2.43.0


From fecd1e3af33f722f46a7b60ebb07d08c3a247015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 011/103] fix: CSVDataStore.load keeps blank column labels such
 as the type of voltage

---
 nilmtk/datastore/csvdatastore.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index d3c974b..d856939 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -53,6 +53,11 @@ class CSVDataStore(DataStore):
         sections = [TimeFrame()] if sections is None else sections
         sections = TimeFrameGroup(sections)
 
+        # Replace any Nones with '' in columns:
+        if columns:
+            columns = [('' if pq is None else pq, '' if ac is None else ac)
+                       for pq, ac in columns]
+
         self.all_sections_smaller_than_chunksize = True
         
         # iterate through parameter sections
@@ -69,6 +74,8 @@ class CSVDataStore(DataStore):
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
                 
+                chunk.columns = _fill_blank_labels(chunk.columns)
+
                 # filter dataframe by specified columns
                 if columns:
                     chunk = chunk[columns]
@@ -254,6 +261,14 @@ class CSVDataStore(DataStore):
         return abs_path
 
 
+def _fill_blank_labels(columns):
+    """Undo pandas' renaming of blank labels, e.g. the type of voltage."""
+    return pd.MultiIndex.from_tuples(
+        [tuple('' if str(label).startswith('Unnamed: ') else label
+               for label in column) for column in columns],
+        names=columns.names)
+
+
 def _n_header_lines(file_path):
     """Two lines of column labels and, unless the index has no name,
     a line with nothing but the name of the index."""
-- 
2.43.0


From ff2ec19dfeb40815c5a2ce4862e8c1cec4df4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 012/103] fix: CSVDataStore.load raises KeyError for a missing
 key, as documented

---
 nilmtk/datastore/csvdatastore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index d856939..617d65f 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -48,6 +48,8 @@ class CSVDataStore(DataStore):
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
              
         file_path = self._key_to_abs_path(key)
+        if not isfile(file_path):
+            raise KeyError("key '{}' not found".format(key))
         
         # Set `sections` variable
         sections = [TimeFrame()] if sections is None else sections
-- 
2.43.0


From 0bd8feeedfa905f2171784fe765e3d537ab31db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 013/103] fix: CSVDataStore.append writes the header only to a
 new file

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 617d65f..2c6e794 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -130,7 +130,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not isfile(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From 50fe45fe2905ea81622719cae996184204531765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 014/103] fix: CSVDataStore.elements_below_key lists what is
 below a key other than /

---
 nilmtk/datastore/csvdatastore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 2c6e794..40bdf55 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -211,11 +211,13 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
+            relative_path = key.strip('/')
             dir_path = join(self.filename, relative_path)
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    if element.endswith('.csv'):
+                        element = element[:-len('.csv')]
+                    elements += [element]
 
         return elements
 
-- 
2.43.0


From 0716d634f3a47ed0d5dd348869436dbf60bea9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 015/103] fix: CSVDataStore.__getitem__ returns the table that
 was stored

---
 nilmtk/datastore/csvdatastore.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 40bdf55..eedc795 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -39,7 +39,10 @@ class CSVDataStore(DataStore):
     
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
-            return pd.read_csv(file_path)
+            data = pd.read_csv(file_path, index_col=0, header=[0,1],
+                               parse_dates=True)
+            data.columns = _fill_blank_labels(data.columns)
+            return data
         else:
             raise KeyError('{} not found'.format(key))
 
-- 
2.43.0


From e4063567f4aaf42e118a471dcd2744b4d12cc76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 016/103] fix: convert_datastore can write to an HDF5 store

---
 nilmtk/datastore/datastore.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index f6de98f..fb0af85 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -221,10 +221,7 @@ def convert_datastore(input_store, output_store):
     output_store.save_metadata('/', metadata)
     for building in input_store.elements_below_key():
         building_key = '/'+building
-        # building metadata
-        metadata = input_store.load_metadata(building_key)
-        output_store.save_metadata(building_key, metadata)
-        for utility in input_store.elements_below_key(building):
+        for utility in input_store.elements_below_key(building_key):
             utility_key = building_key+'/'+utility
             for meter in input_store.elements_below_key(utility_key):
                 # ignore cache (should this appear as an element below key?)
@@ -234,5 +231,8 @@ def convert_datastore(input_store, output_store):
                 # store meter data
                 for df in input_store.load(meter_key):
                     output_store.append(meter_key, df)
+        # building metadata (an HDF5 store needs the building to exist)
+        metadata = input_store.load_metadata(building_key)
+        output_store.save_metadata(building_key, metadata)
 
 
-- 
2.43.0


From 6ae175a596d0cd40def84127b54fef20552679ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:27 +0000
Subject: [PATCH 017/103] fix: HDFDataStore.save_metadata does not alias the
 metadata of the caller

---
 nilmtk/datastore/hdfdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 09be7a2..dc283d6 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -197,7 +197,7 @@ class HDFDataStore(DataStore):
         else:
             node = self.store.get_node(key)
 
-        node._v_attrs.metadata = metadata
+        node._v_attrs.metadata = deepcopy(metadata)
         self.store.flush()
 
     @doc_inherit
-- 
2.43.0


From 10268e79837460e30614fb2748697dc4ff074352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:06 +0000
Subject: [PATCH 018/103] fix: GoodSectionsResults.combined can be called more
 than once

---
 nilmtk/stats/goodsectionsresults.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..1315d10 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -46,7 +46,9 @@ class GoodSectionsResults(Results):
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # Copy, so that merging does not change self._data
+            row_sections = TimeFrameGroup(TimeFrame(section)
+                                          for section in row['sections'])
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
@@ -57,7 +59,8 @@ class GoodSectionsResults(Results):
                     <= index <=
                     end_date_of_prev_row)
 
-                if rows_are_adjacent and row_sections[0].start is None:
+                if (rows_are_adjacent and row_sections
+                        and row_sections[0].start is None):
                     assert sections[-1].end is None
                     sections[-1].end = row_sections[0].end
                     row_sections.pop(0)
-- 
2.43.0


From f9ecba1924fa8fef91a94ebc9d8510affefaeefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:06 +0000
Subject: [PATCH 019/103] fix: good sections of chunks with missing readings

---
 nilmtk/stats/goodsections.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..5f59be7 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -96,8 +96,10 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
     index = df.dropna().sort_index().index
     del df
 
-    if len(index) < 2:
-        return []
+    if len(index) == 0:
+        # No samples, so any good section which was open remains so.
+        return ([TimeFrame()]
+                if previous_chunk_ended_with_open_ended_good_section else [])
 
     timedeltas_sec = timedelta64_to_secs(diff(index.values))
     timedeltas_check = timedeltas_sec <= max_sample_period
@@ -126,9 +128,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    if look_ahead is not None:
+        look_ahead = look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From 073d733bda2702d3b75cd28429858c2da3112639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 020/103] fix: good sections of non-adjacent sections are
 independent

---
 nilmtk/stats/goodsections.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index 5f59be7..6629999 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -22,6 +22,7 @@ class GoodSections(Node):
         
     def reset(self):
         self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = None
 
     def process(self):
         metadata = self.upstream.get_metadata()
@@ -61,6 +62,12 @@ class GoodSections(Node):
         look_ahead = getattr(df, 'look_ahead', None)
         timeframe = df.timeframe
 
+        # A good section cannot carry on across a gap between requested sections
+        if (self.end_of_previous_chunk is None or timeframe.start is None
+                or timeframe.start > self.end_of_previous_chunk):
+            self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = timeframe.end
+
         # Process dataframe
         good_sections = get_good_sections(
             df, max_sample_period, look_ahead,
-- 
2.43.0


From 8fd8692230b40bf8ec25e53e292d027477dfa8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 021/103] fix: a lone sample at the end of a requested section
 is no good section

---
 nilmtk/stats/goodsectionsresults.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 1315d10..e709fa6 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -68,10 +68,7 @@ class GoodSectionsResults(Results):
                     # row_sections[0] and sections[-1] were not in adjacent chunks
                     # so check if they are both open-ended and close them...
                     if sections and sections[-1].end is None:
-                        try:
-                            sections[-1].end = end_date_of_prev_row
-                        except ValueError: # end_date_of_prev_row before sections[-1].start
-                            pass
+                        self._close_last(sections, end_date_of_prev_row)
                     if row_sections and row_sections[0].start is None:
                         try:
                             row_sections[0].start = index
@@ -81,13 +78,21 @@ class GoodSectionsResults(Results):
             end_date_of_prev_row = row['end']
             sections.extend(row_sections)
 
+        if sections and sections[-1].end is None:
+            self._close_last(sections, end_date_of_prev_row)
         if sections:
             sections[-1].include_end = True
-            if sections[-1].end is None:
-                sections[-1].end = end_date_of_prev_row
 
         return sections
 
+    @staticmethod
+    def _close_last(sections, end):
+        """Closes the last, open-ended section; one sample is no section."""
+        if sections[-1].start == end:
+            sections.pop()
+        else:
+            sections[-1].end = end
+
     def unify(self, other):
         super(GoodSectionsResults, self).unify(other)
         for start, row in self._data.iterrows():
-- 
2.43.0


From 843f6334e795697b66b47ad1eae9bae402e0593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:12 +0000
Subject: [PATCH 022/103] fix: total energy from cumulative energy skips
 missing readings

---
 nilmtk/stats/totalenergy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 8971db6..80e1ec8 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -70,7 +70,9 @@ def get_total_energy(df, max_sample_period):
         if physical_quantity == 'power':
             energy[ac_type] = _energy_for_power_series(series, max_sample_period)
         elif physical_quantity == 'cumulative energy':
-            energy[ac_type] = series.iloc[-1] - series.iloc[0]
+            series = series.dropna()
+            energy[ac_type] = (series.iloc[-1] - series.iloc[0]
+                               if len(series) else 0.0)
         elif physical_quantity == 'energy':
             energy[ac_type] = series.sum()
 
-- 
2.43.0


From e1069b3b5ead5db3ff5205c54c53a658eef7500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:12 +0000
Subject: [PATCH 023/103] fix: total energy counts the row shared by two chunks
 once

---
 nilmtk/stats/totalenergy.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 80e1ec8..cab92b7 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -22,8 +22,14 @@ class TotalEnergy(Node):
         self.check_requirements()
         metadata = self.upstream.get_metadata()
         max_sample_period = metadata['device']['max_sample_period']
+        last_index = None
         for chunk in self.upstream.process():
-            energy = get_total_energy(chunk, max_sample_period)
+            # consecutive chunks share a row
+            repeats_row = (len(chunk) > 0 and last_index is not None
+                           and chunk.index[0] == last_index)
+            energy = get_total_energy(chunk, max_sample_period, repeats_row)
+            if len(chunk) > 0:
+                last_index = chunk.index[-1]
             self.results.append(chunk.timeframe, energy)
             yield chunk
 
@@ -36,13 +42,15 @@ class TotalEnergy(Node):
                 ['power', 'energy', 'cumulative energy']]
 
 
-def get_total_energy(df, max_sample_period):
+def get_total_energy(df, max_sample_period, first_row_is_repeated=False):
     """Calculate total energy for energy / power data in a dataframe.
 
     Parameters
     ----------
     df : pd.DataFrame
     max_sample_period : float or int
+    first_row_is_repeated : bool
+        True if the energy recorded on the first row has been counted already.
 
     Returns
     -------
@@ -74,7 +82,8 @@ def get_total_energy(df, max_sample_period):
             energy[ac_type] = (series.iloc[-1] - series.iloc[0]
                                if len(series) else 0.0)
         elif physical_quantity == 'energy':
-            energy[ac_type] = series.sum()
+            energy[ac_type] = (series.iloc[1:] if first_row_is_repeated
+                               else series).sum()
 
     return energy
 
-- 
2.43.0


From 2b5dc6cfd3102e4b23f4aef6d12b94d58d1d1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 024/103] fix: combined dropout rate ignores chunks with too
 few samples

---
 nilmtk/stats/dropoutrateresults.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 4b92bfa..5a3a268 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -1,3 +1,4 @@
+import numpy as np
 import matplotlib.pyplot as plt
 from ..results import Results
 from ..consts import SECS_PER_DAY
@@ -21,9 +22,15 @@ class DropoutRateResults(Results):
         -------
         dropout_rate : float, [0,1]
         """
-        tot_samples = self._data['n_samples'].sum()
-        proportion = self._data['n_samples'] / tot_samples
-        dropout_rate = (self._data['dropout_rate'] * proportion).sum()
+        if self._data.empty:
+            return np.nan
+        # Chunks with too few samples have no dropout rate
+        data = self._data.dropna(subset=['dropout_rate'])
+        tot_samples = data['n_samples'].sum()
+        if tot_samples == 0:
+            return np.nan
+        proportion = data['n_samples'] / tot_samples
+        dropout_rate = (data['dropout_rate'] * proportion).sum()
         return dropout_rate
 
     def unify(self, other):
-- 
2.43.0


From 23ab6ed01d723933f1b74e652f662599dd866bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:24 +0000
Subject: [PATCH 025/103] fix: cached statistics of meters of different
 datasets are kept apart

---
 nilmtk/elecmeter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..f7614ca 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -1,6 +1,8 @@
 from warnings import warn
 from collections import namedtuple
 from copy import deepcopy
+from hashlib import md5
+from urllib.parse import quote
 import numpy as np
 import pandas as pd
 from .preprocessing import Clip
@@ -638,8 +640,8 @@ class ElecMeter(Hashable, Electric):
         cache.
 
         Cached statistics lives in the DataStore at
-        'building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
-        'building1/elec/cache/meter1/total_energy'.  We store the
+        '<dataset>/building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
+        'REDD/building1/elec/cache/meter1/total_energy'.  We store the
         'full' statistic... i.e we store a representation of the `Results._data`
         DataFrame. Some times we need to do some conversion to store
         `Results._data` on disk.  The logic for doing this conversion lives
@@ -789,8 +791,9 @@ class ElecMeter(Hashable, Electric):
         else:
             meter_str = "{:d}".format(self.instance())
 
-        return ("building{:d}/elec/cache/meter{}/{:s}"
-                .format(self.building(), meter_str, stat_name))
+        return ("{:s}/building{:d}/elec/cache/meter{}/{:s}"
+                .format(quote(str(self.dataset()), safe=''),
+                        self.building(), meter_str, stat_name))
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 36c014681386a27e3dd45cf1c4059fcdea19336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:24 +0000
Subject: [PATCH 026/103] fix: cached statistics respect the window of the
 store

---
 nilmtk/elecmeter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index f7614ca..f230217 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -680,7 +680,9 @@ class ElecMeter(Hashable, Electric):
             tf = self.get_timeframe()
             tf.include_end = True
             sections = [tf]
-        sections = TimeFrameGroup(sections)
+        # Cached results are valid only for exactly the same time
+        sections = [self.store.window.intersection(s)
+                    for s in TimeFrameGroup(sections)]
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-- 
2.43.0


From 76679bba526aa67f8897d031d755e0ad90f8d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:24 +0000
Subject: [PATCH 027/103] fix: cache statistics of whole sections only, and
 never of preprocessed data

---
 nilmtk/elecmeter.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index f230217..dd31343 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -1,6 +1,6 @@
 from warnings import warn
 from collections import namedtuple
-from copy import deepcopy
+from copy import copy, deepcopy
 from hashlib import md5
 from urllib.parse import quote
 import numpy as np
@@ -687,7 +687,8 @@ class ElecMeter(Hashable, Electric):
 
         # Retrieve usable stats from cache
         key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
-        if loader_kwargs.get('preprocessing') is None:
+        use_cache = loader_kwargs.get('preprocessing') is None
+        if use_cache:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
 
@@ -722,13 +723,10 @@ class ElecMeter(Hashable, Electric):
             results_obj.update(computed_result.results)
 
             # Save to disk newly computed stats
-            stat_for_store = computed_result.results.export_to_cache()
-            try:
-                self.cache.append(key_for_cached_stat, stat_for_store)
-            except ValueError:
-                # the old table probably had different columns
-                self.cache.remove(key_for_cached_stat)
-                self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
+            if use_cache:
+                self._save_stat_to_cache(
+                    key_for_cached_stat, computed_result.results,
+                    sections_to_compute)
 
         if full_results:
             return results_obj
@@ -747,6 +745,22 @@ class ElecMeter(Hashable, Electric):
             else:
                 return res
 
+    def _save_stat_to_cache(self, key_for_stat, results, sections):
+        # A section can be loaded in several chunks.  The results of a chunk
+        # are not the results of a section.
+        is_section = [tf in sections for tf in results.timeframes()]
+        results = copy(results)
+        results._data = results._data[is_section]
+        stat_for_store = results.export_to_cache()
+        if stat_for_store.empty:
+            return
+        try:
+            self.cache.append(key_for_stat, stat_for_store)
+        except ValueError:
+            # the old table probably had different columns
+            self.cache.remove(key_for_stat)
+            self.cache.put(key_for_stat, stat_for_store)
+
     def _compute_stat(self, nodes, loader_kwargs):
         """
         Parameters
-- 
2.43.0


From 19e04dbd68868574c6343642073a462cb6b60fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:24 +0000
Subject: [PATCH 028/103] fix: statistics loaded in different ways do not share
 cached results

---
 nilmtk/elecmeter.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index dd31343..a6d1018 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -640,8 +640,9 @@ class ElecMeter(Hashable, Electric):
         cache.
 
         Cached statistics lives in the DataStore at
-        '<dataset>/building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
-        'REDD/building1/elec/cache/meter1/total_energy'.  We store the
+        '<dataset>/building<I>/elec/cache/meter<K>/<statistic_name>_<tag>'
+        e.g. 'REDD/building1/elec/cache/meter1/total_energy_<tag>', where the
+        tag identifies how the data is loaded.  We store the
         'full' statistic... i.e we store a representation of the `Results._data`
         DataFrame. Some times we need to do some conversion to store
         `Results._data` on disk.  The logic for doing this conversion lives
@@ -686,8 +687,13 @@ class ElecMeter(Hashable, Electric):
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-        key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
-        use_cache = loader_kwargs.get('preprocessing') is None
+        key_for_cached_stat = self.key_for_cached_stat(
+            results_obj.name + self._tag_for_cached_stat(loader_kwargs, sections))
+        # The results of sections which touch each other are not independent
+        ends = [s.end for s in sections]
+        sections_touch = any(s.start in ends for s in sections)
+        use_cache = (loader_kwargs.get('preprocessing') is None and
+                     not sections_touch)
         if use_cache:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
@@ -811,6 +817,15 @@ class ElecMeter(Hashable, Electric):
                 .format(quote(str(self.dataset()), safe=''),
                         self.building(), meter_str, stat_name))
 
+    @staticmethod
+    def _tag_for_cached_stat(loader_kwargs, sections):
+        """Tells apart requests which must not share cached statistics because
+        they load the data differently (other columns, chunk size...)."""
+        options = sorted((key, repr(value)) for key, value in loader_kwargs.items()
+                         if key not in ('sections', 'verbose'))
+        options += [str(s.end) for s in sections if s.include_end]
+        return '_' + md5(repr(options).encode()).hexdigest()
+
     def clear_cache(self, verbose=False):
         """
         See Also
-- 
2.43.0


From 09d4f3157a631af9624dc86083b84e1f64f6da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:24 +0000
Subject: [PATCH 029/103] fix: the cache does not turn the unknown energy of an
 empty section into zero

---
 nilmtk/stats/totalenergyresults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/stats/totalenergyresults.py b/nilmtk/stats/totalenergyresults.py
index 89e2b2d..b7a7e5f 100644
--- a/nilmtk/stats/totalenergyresults.py
+++ b/nilmtk/stats/totalenergyresults.py
@@ -39,5 +39,5 @@ class TotalEnergyResults(Results):
         return self.combined()
 
     def export_to_cache(self):
-        return self._data.fillna(0).apply(pd.to_numeric, errors='ignore')
+        return self._data.dropna().apply(pd.to_numeric, errors='ignore')
                 
-- 
2.43.0


From c80df5d6862407fc40bd7b1e68bfce17608f30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:17 +0000
Subject: [PATCH 030/103] fix: cached time stamps without time zone are read
 back as time stamps

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e2cf081..35b3641 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -259,12 +259,12 @@ def check_directory_exists(d):
 
 
 def tz_localize_naive(timestamp, tz):
-    if tz is None:
-        return timestamp
     if timestamp is None or pd.isnull(timestamp):
         return pd.NaT
 
     timestamp = pd.Timestamp(timestamp)
+    if tz is None or pd.isnull(timestamp):
+        return timestamp
     if timestamp_is_naive(timestamp):
         timestamp = timestamp.tz_localize('UTC')
 
-- 
2.43.0


From 85feda25d37a35a550acae07fa01b6e6ed45e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:52 +0000
Subject: [PATCH 031/103] fix: Results.update leaves the results unchanged when
 it refuses an update

---
 nilmtk/results.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index f813228..90c154b 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -105,9 +105,14 @@ class Results(object):
         if new_result._data.empty:
             return
 
+        old_data = self._data
         self._data = pd.concat([self._data, new_result._data], sort=False)
         self._data.sort_index(inplace=True)
-        self.check_for_overlap()
+        try:
+            self.check_for_overlap()
+        except ValueError:
+            self._data = old_data
+            raise
 
     def unify(self, other):
         """Take results from another table of data (another physical meter)
-- 
2.43.0


From df4cb24b6c173ed2719b120a1dd985607460f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:27 +0000
Subject: [PATCH 032/103] fix: Results.unify refuses results for other
 timeframes

---
 nilmtk/results.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index 90c154b..185007f 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -126,12 +126,10 @@ class Results(object):
             Results calculated from another table of data.
         """
         assert isinstance(other, self.__class__)
-        for i, row in self._data.iterrows():
-            if (other._data['end'].loc[i] != row['end'] or
-                i not in other._data.index):
-                raise RuntimeError("The sections we are trying to merge"
-                                   " do not have the same end times so we"
-                                   " cannot merge them.")
+        if self.timeframes() != other.timeframes():
+            raise RuntimeError("The sections we are trying to merge"
+                               " do not have the same end times so we"
+                               " cannot merge them.")
 
     def import_from_cache(self, cached_stat, sections):
         """
-- 
2.43.0


From 021dcab53d3eba5639b5cdd28eaa2f4db9ee5aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:13 +0000
Subject: [PATCH 033/103] fix: a requirement of nested properties is not met by
 a plain value

---
 nilmtk/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/node.py b/nilmtk/node.py
index fa4c7cc..07640f4 100644
--- a/nilmtk/node.py
+++ b/nilmtk/node.py
@@ -119,7 +119,7 @@ def find_unsatisfied_requirements(state, requirements):
                        .format(key, value, key))
                 unsatisfied.append(msg)
             else:
-                if isinstance(value, dict):
+                if isinstance(value, dict) and isinstance(cond_value, dict):
                     unsatisfied_requirements(cond_value, value)
                 elif value != 'ANY VALUE' and cond_value != value:
                     msg = ("Requires '{}={}' not '{}={}'."
-- 
2.43.0


From 0edfb7c1dc48c35e2410aa64d14c4c0430537579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:13 +0000
Subject: [PATCH 034/103] fix: Clip applies a limit even if the other limit is
 not specified

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index b4cbddc..79a830d 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -28,7 +28,7 @@ class Clip(Node):
                 lower, upper = _find_limits(measurement, measurements)
                 lower = lower if self.lower is None else self.lower
                 upper = upper if self.upper is None else self.upper
-                if lower is not None and upper is not None:
+                if lower is not None or upper is not None:
                     # We use `chunk.iloc[:,icol]` instead of iterating
                     # through each column so we can to the clipping in place
                     icol = index_of_column_name(chunk, measurement)
-- 
2.43.0


From 187916f61b2031354a8889e6553f1b790a441cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:13 +0000
Subject: [PATCH 035/103] fix: Clip finds the limits of measurements without a
 type such as voltage

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index 79a830d..f059d55 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -43,7 +43,7 @@ def _find_limits(measurement, measurements):
     lower, upper : numbers
     """
     for m in measurements:
-        if ((m.get('physical_quantity'), m.get('type')) == measurement):
+        if ((m.get('physical_quantity'), m.get('type', '')) == measurement):
             return m.get('lower_limit'), m.get('upper_limit')
 
     warn('No measurement limits for {}.'.format(measurement), RuntimeWarning)
-- 
2.43.0


From 009cbe1c9ab409438023b3a02abd30f52b54354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 036/103] fix: MeterGroup.load works in UTC and when clocks are
 set back

---
 nilmtk/metergroup.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 16e23e7..eefcfa1 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -714,10 +714,8 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
             index = pd.date_range(
-                start.tz_localize(None), section.end.tz_localize(None), tz=tz,
-                inclusive='left', freq=freq)
+                start, section.end, inclusive='left', freq=freq)
             chunk = combine_chunks_from_generators(
                 index, columns, self.meters, kwargs)
             yield chunk
-- 
2.43.0


From 1651685025bfa8991aead8e513766b23bcebbc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 037/103] fix: MeterGroup.load reports each sample period once
 when it splits a section

---
 nilmtk/metergroup.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index eefcfa1..1df9dae 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -711,14 +711,17 @@ class MeterGroup(Electric):
             return
 
         # Loop through each section to load
-        for section in split_timeframes(sections, duration_threshold):
-            kwargs['sections'] = [section]
+        for section in sections:
+            # Do not split within a sample period
             start = normalise_timestamp(section.start, freq)
-            index = pd.date_range(
-                start, section.end, inclusive='left', freq=freq)
-            chunk = combine_chunks_from_generators(
-                index, columns, self.meters, kwargs)
-            yield chunk
+            for split in split_timeframes([TimeFrame(start, section.end)],
+                                          duration_threshold):
+                kwargs['sections'] = [section.intersection(split)]
+                index = pd.date_range(
+                    split.start, split.end, inclusive='left', freq=freq)
+                chunk = combine_chunks_from_generators(
+                    index, columns, self.meters, kwargs)
+                yield chunk
 
     def _convert_physical_quantity_and_ac_type_to_cols(self, **kwargs):
         all_columns = set()
-- 
2.43.0


From abeffa9bdde41b69ac3a9a7119bf53877109564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 038/103] fix: MeterGroup.load averages voltages over the
 meters which have a reading

---
 nilmtk/metergroup.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 1df9dae..12112c8 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1776,9 +1776,8 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     """
     # Regarding columns (e.g. voltage) that we need to average:
     # The approach is that we first add everything together
-    # in the first for-loop, whilst also keeping a 
-    # `columns_to_average_counter` DataFrame
-    # which tells us what to divide by in order to compute the 
+    # in the first for-loop, whilst also counting the readings
+    # so that we know what to divide by in order to compute the 
     # mean for PHYSICAL_QUANTITIES_TO_AVERAGE.
 
     # Regarding doing an in-place addition:
@@ -1790,7 +1789,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     DTYPE = np.float32
     cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
-    columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
+    n_readings = np.zeros(cumulator.shape, dtype=np.uint16)
     timeframe = None
 
     # Go through each generator to try sum values together
@@ -1829,34 +1828,22 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
             cumulator_col[where_both_are_nan] = np.nan
+            n_readings[:,i] += ~np.isnan(aligned)
             del aligned
             del where_both_are_nan
             gc.collect()
 
-        # Update columns_to_average_counter - this is necessary so we do not
-        # add up columns like 'voltage' which should be averaged.
-        physical_quantities = chunk_from_next_meter.columns.get_level_values('physical_quantity')
-        columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
-                              .intersection(physical_quantities))
-        if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
-            columns_to_average_counter = columns_to_average_counter.add(
-                counter_increment, fill_value=0)
-            del counter_increment
-
         del chunk_from_next_meter
         gc.collect()
 
-    del cumulator_arr
-    gc.collect()
-
     # Create mean values by dividing any columns which need dividing
-    for column in columns_to_average_counter:
-        cumulator[column] /= columns_to_average_counter[column]
+    for i, column_name in enumerate(columns):
+        if column_name[0] in PHYSICAL_QUANTITIES_TO_AVERAGE:
+            # where there are no readings, the sum is NaN
+            cumulator_arr[:,i] /= np.maximum(n_readings[:,i], 1)
 
-    del columns_to_average_counter
+    del cumulator_arr
+    del n_readings
     gc.collect()
     print()
     print("Done loading data all meters for this chunk.")
-- 
2.43.0


From ab520237c8b8cc58264205a0b8f3d73da403c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 039/103] fix: total energy of a group of meters with different
 AC types

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 12112c8..7d276fb 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -870,7 +870,9 @@ class MeterGroup(Electric):
                 if full_results:
                     total_energy_results.unify(meter_energy)
                 else:
-                    total_energy_results += meter_energy
+                    # meters can record different AC types
+                    total_energy_results = total_energy_results.add(
+                        meter_energy, fill_value=0)
             return total_energy_results
 
     def _collect_stats_on_all_meters(self, load_kwargs, func, full_results):
-- 
2.43.0


From b12964c9e17c95939badb6d09d7cb17564ecc3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 040/103] fix: phase angles of several meters are averaged, not
 added

---
 nilmtk/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/measurement.py b/nilmtk/measurement.py
index bda9361..a94e40f 100644
--- a/nilmtk/measurement.py
+++ b/nilmtk/measurement.py
@@ -10,7 +10,7 @@ PHYSICAL_QUANTITIES = ['power', 'energy', 'cumulative energy',
                        'voltage', 'current', 'pf', 'frequency', 'power factor', 
                        'state', 'phase angle']
 PHYSICAL_QUANTITIES_WITH_AC_TYPES = ['power', 'energy', 'cumulative energy']
-PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase_angle']
+PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase angle']
 LEVEL_NAMES = ['physical_quantity', 'type']
 
 def check_ac_type(ac_type):
-- 
2.43.0


From 383f9121fc09f1cc7a3782fdd00df212d676d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 041/103] fix: a lookup is not refused because another
 appliance or meter lacks an attribute

---
 nilmtk/electric.py   | 8 ++++++--
 nilmtk/metergroup.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..d6535b5 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -96,8 +96,12 @@ class Electric(object):
         in `self.appliances`.
         """
         for appliance in self.appliances:
-            if appliance.matches(key):
-                return True
+            try:
+                if appliance.matches(key):
+                    return True
+            except KeyError:
+                # this appliance does not have all the attributes in `key`
+                pass
         return False
 
     def power_series_all_data(self, **kwargs):
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 7d276fb..8f0ed2c 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -297,8 +297,12 @@ class MeterGroup(Electric):
 
     def matches(self, key):
         for meter in self.meters:
-            if meter.matches(key):
-                return True
+            try:
+                if meter.matches(key):
+                    return True
+            except KeyError:
+                # this meter does not have all the attributes in `key`
+                pass
         return False
 
     def select(self, **kwargs):
-- 
2.43.0


From ee63fd7b54c15c6c40ff18457d158fb240225af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 042/103] fix: appliances of an unrecognised type can be looked
 up by type

---
 nilmtk/appliance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/appliance.py b/nilmtk/appliance.py
index a43508e..31f8b78 100644
--- a/nilmtk/appliance.py
+++ b/nilmtk/appliance.py
@@ -118,9 +118,10 @@ class Appliance(Hashable):
         for k, v in key.items():
             if hasattr(self.identifier, k):
                 if Appliance.allow_synonyms and k == 'type':
-                    synonyms = self.type.get('synonyms', [])
-                    synonyms.append(self.identifier.type)
-                    if v not in synonyms:
+                    appliance_type = Appliance.appliance_types.get(
+                        self.identifier.type, {})
+                    synonyms = appliance_type.get('synonyms', [])
+                    if v != self.identifier.type and v not in synonyms:
                         match = False
                 elif getattr(self.identifier, k) != v:
                     match = False
-- 
2.43.0


From 0e4b20a67660854806747d65491012ef31c62999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 043/103] fix: select a meter once even if it matches several
 of the listed values

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 8f0ed2c..ecded77 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -369,7 +369,8 @@ class MeterGroup(Electric):
                 else:
                     exception_raised_every_time = False
                     if match:
-                        selected_meters.append(meter)
+                        if meter not in selected_meters:
+                            selected_meters.append(meter)
                         no_match = False
             if no_match:
                 raise KeyError("'No match for {}'".format(_kwargs))
-- 
2.43.0


From 9caf2dac4c9a2b95b7e1c0d123f5461303bcfa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 044/103] fix: equal MeterGroups have equal hashes

---
 nilmtk/metergroup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index ecded77..5dc4041 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -58,10 +58,10 @@ class MeterGroup(Electric):
     
     def __hash__(self):
         """
-        Provide a hash based on the MeterGroup's name, meters and 
-        disabled_meters
-        """ 
-        return hash((self.name, tuple(self.meters), tuple(self.disabled_meters)))
+        Provide a hash based on the MeterGroup's meters, in any order:
+        MeterGroups which are equal have the same hash.
+        """
+        return hash(frozenset(self.meters))
 
     def import_metadata(self, store, elec_meters, appliances, building_id):
         """
-- 
2.43.0


From 5a27cba66b9cdf2bc62014f4a97143e4adc6fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:20 +0000
Subject: [PATCH 045/103] fix: a meter's device is looked up in its own dataset
 first

---
 nilmtk/elecmeter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index a6d1018..9fb56f5 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -139,8 +139,10 @@ class ElecMeter(Hashable, Electric):
     @classmethod
     def load_meter_devices(cls, store):
         dataset_metadata = store.load_metadata('/')
-        ElecMeter.meter_devices.update(
-            dataset_metadata.get('meter_devices', {}))
+        meter_devices = dataset_metadata.get('meter_devices', {})
+        ElecMeter.meter_devices.update(meter_devices)
+        # Different datasets may use the same name for different devices
+        store.meter_devices = meter_devices
 
     def save(self, destination, key):
         """
@@ -161,6 +163,9 @@ class ElecMeter(Hashable, Electric):
         """
         device_model = self.metadata.get('device_model')
         if device_model:
+            own_devices = getattr(self.store, 'meter_devices', {})
+            if device_model in own_devices:
+                return deepcopy(own_devices[device_model])
             return deepcopy(ElecMeter.meter_devices[device_model])
         else:
             return {}
-- 
2.43.0


From 099c17faa3fadff51e95cff751a0085184319bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:01 +0000
Subject: [PATCH 046/103] fix: meters of a dataset loaded again replace those
 loaded before

---
 nilmtk/elecmeter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 9fb56f5..9c9572d 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -61,8 +61,12 @@ class ElecMeter(Hashable, Electric):
         # Insert self into nilmtk.global_meter_group
         if self.identifier is not None:
             assert isinstance(self.identifier, ElecMeterID)
-            if self not in nilmtk.global_meter_group.meters:
-                nilmtk.global_meter_group.meters.append(self)
+            all_meters = nilmtk.global_meter_group.meters
+            if self in all_meters:
+                # The dataset has been loaded again: forget its old meters
+                all_meters[all_meters.index(self)] = self
+            else:
+                all_meters.append(self)
 
     @property
     def key(self):
-- 
2.43.0


From 23e1dc105da585e2771a87cc162e30775d7819f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:01 +0000
Subject: [PATCH 047/103] fix: disabled site meters are not upstream of
 anything

---
 nilmtk/metergroup.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 5dc4041..b706dca 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -222,6 +222,10 @@ class MeterGroup(Electric):
             elif key.instance == 0:
                 metergroup_of_building = self.select(
                     building=key.building, dataset=key.dataset)
+                metergroup_of_building.meters = [
+                    meter for meter in metergroup_of_building.meters
+                    if isinstance(meter, MeterGroup)
+                    or not meter.metadata.get('disabled')]
                 return metergroup_of_building.mains()
             else:
                 for meter in self.meters:
@@ -813,9 +817,12 @@ class MeterGroup(Electric):
         for meter in present_mains:
             self.meters.remove(meter)
             self.disabled_meters.append(meter)
+            if isinstance(meter, ElecMeter):
+                meter.metadata['disabled'] = True
         for meter in alternative_mains:
             self.meters.append(meter)
             self.disabled_meters.remove(meter)
+            meter.metadata['disabled'] = False
 
     def upstream_meter(self):
         """Returns single upstream meter.
-- 
2.43.0


From 482ee4998fa46e5290f6789c2c598f3654b42db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:11 +0000
Subject: [PATCH 048/103] fix: steady states of a series without any transition

---
 nilmtk/feature_detectors/steady_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..570e315 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -30,6 +30,8 @@ def find_steady_states_transients(metergroup, columns, noise_level,
             state_threshold=state_threshold)
         steady_states_list.append(x)
         transients_list.append(y)
+    if not steady_states_list:
+        return [pd.DataFrame(), pd.DataFrame()]
     return [pd.concat(steady_states_list), pd.concat(transients_list)]
 
 
@@ -161,7 +163,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if steady_states and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From e45e1d2240533cfb0f6e6a1bc216aecadc1aaf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:46 +0000
Subject: [PATCH 049/103] fix: Hart85 predicts each chunk of mains from its own
 transitions

---
 nilmtk/disaggregate/hart_85.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..48ba621 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -405,7 +405,7 @@ class Hart85(Disaggregator):
         for chunk in test_mains:
           
             [_, transients] = find_steady_states(
-            test_mains[0],  state_threshold=self.state_threshold,
+            chunk,  state_threshold=self.state_threshold,
             noise_level=self.noise_level)
             #print('Transients:',transients)
             # For now ignoring the first transient
@@ -451,12 +451,11 @@ class Hart85(Disaggregator):
                     else:
                         # Turned off
                         states.loc[transient_tuple[0]][index_least_delta] = 0
-            prev = states.iloc[-1].to_dict()
             power_chunk_dict = self.assign_power_from_states(states, prev)
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
             # Check whether 1d data or 2d data and converting dict to dataframe
-            if len(transient_tuple) == 2:
+            if len(self.centroids.columns) == 1:
                 
                 temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
                 
@@ -480,13 +479,13 @@ class Hart85(Disaggregator):
                         for k in range(0, 2):
                             temp_df.iloc[i,j,k] = power_chunk_dict[j,i,k]
          
-        temp_df=temp_df.fillna(0)
- 
-        temp=pd.DataFrame()
-        for appliance in self.appliances:
-            matched_col=self.best_matches[appliance]
-            temp[appliance]=temp_df[matched_col]
-        test_predictions_list.append(temp)    
+            temp_df=temp_df.fillna(0)
+
+            temp=pd.DataFrame()
+            for appliance in self.appliances:
+                matched_col=self.best_matches[appliance]
+                temp[appliance]=temp_df[matched_col]
+            test_predictions_list.append(temp)
           
         
         return test_predictions_list
-- 
2.43.0


From fccd308f861a1b2dd1aa45f42cb545c0b60828e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:16 +0000
Subject: [PATCH 050/103] fix: Hart85 assigns power from single-column
 centroids

---
 nilmtk/disaggregate/hart_85.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 48ba621..e9c8f78 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -513,7 +513,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            level = self.centroids.loc[appliance].values
             if ndim == 1:
+                level = level[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -524,10 +526,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = level
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = level
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -560,10 +562,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = level
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = level
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From a66ca144aa0a4c5a6c64b53fab7371dcb872db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:18 +0000
Subject: [PATCH 051/103] fix: FHMM states with equal means are all kept when
 sorting

---
 nilmtk/disaggregate/fhmm_exact.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..dc91ab6 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -128,13 +128,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
+    # Finding mapping (a permutation, even when several means are equal)
+    order = np.argsort(np.asarray(means).flatten(), kind='stable')
+    mapping = {i: j for i, j in enumerate(order)}
     return mapping
 
 
-- 
2.43.0


From 7e54d1f02a57d2077c1c24d6b05c834280f10d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:08 +0000
Subject: [PATCH 052/103] fix: mean model averages the readings exactly and
 ignores missing ones

---
 nilmtk/disaggregate/mean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..552b888 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -21,8 +21,8 @@ class Mean(Disaggregator):
             print("Training %s in %s model".format(app_name, self.MODEL_NAME), end="\r")
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
-            app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['sum'] += float(np.nansum(power_.values))
+            app_dict['n_elem'] += int(np.count_nonzero(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
-- 
2.43.0


From 03e5b0e6753c5f1553942125c728c793274e33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:55 +0000
Subject: [PATCH 053/103] fix: malformed keys are refused and keys keep their
 utility

---
 nilmtk/datastore/key.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/nilmtk/datastore/key.py b/nilmtk/datastore/key.py
index fecf42e..b0338d5 100644
--- a/nilmtk/datastore/key.py
+++ b/nilmtk/datastore/key.py
@@ -24,20 +24,28 @@ class Key(object):
         else:
             split = string.strip('/').split('/')
             assert split[0].startswith('building'), "The first element must be 'building<I>', e.g. 'building1'; not '{}'.".format(split[0])
-            try:
-                self.building = int(split[0].replace("building", ""))
-            except ValueError as e:
-                raise ValueError("'building' must be followed by an integer.\n{}"
-                                 .format(e))
+            self.building = self._number(split[0], 'building')
+            self.meter = None
+            if len(split) > 3 or (len(split) == 2 and split[1].startswith('meter')):
+                raise ValueError("A key must be 'building<I>/<utility>/meter<M>';"
+                                 " not '{}'.".format(string))
             if len(split) > 1:
+                if not split[1]:
+                    raise ValueError("No utility in '{}'.".format(string))
                 self.utility = split[1]
             if len(split) == 3:
                 assert split[2].startswith('meter')
-                self.meter = int(split[-1].replace("meter", ""))
-            else:
-                self.meter = None
+                self.meter = self._number(split[2], 'meter')
         self._check()
 
+    @staticmethod
+    def _number(text, word):
+        digits = text[len(word):]
+        if not (digits.isascii() and digits.isdigit()):
+            raise ValueError("'{}' must be followed by an integer; not '{}'."
+                             .format(word, text))
+        return int(digits)
+
     def _check(self):
         assert isinstance(self.building, int)
         assert self.building >= 1
@@ -49,5 +57,5 @@ class Key(object):
         self._check()
         s = "/building{:d}".format(self.building)
         if self.meter is not None:
-            s += "/elec/meter{:d}".format(self.meter)
+            s += "/{}/meter{:d}".format(self.utility or 'elec', self.meter)
         return s
-- 
2.43.0


From 14252f25d87eae68f521ba156582f207dbdf9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 054/103] fix: aligning two meters goes on after a section with
 a single reading

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index d6535b5..9cbcf2d 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -847,7 +847,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From 112a75840fe91c9f95e311910e8f9185984384c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 055/103] fix: F1 score ignores chunks without any aligned
 samples

---
 nilmtk/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index 9e9e5ae..b1c4ed0 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -219,6 +219,8 @@ def f1_score(predictions, ground_truth):
             pred_meter, ground_truth_meter, 'when_on')
         for aligned_states_chunk in aligned_meters:
             aligned_states_chunk.dropna(inplace=True)
+            if aligned_states_chunk.empty:
+                continue
             aligned_states_chunk = aligned_states_chunk.astype(int)
             score = sklearn_f1_score(aligned_states_chunk.iloc[:, 0],
                                      aligned_states_chunk.iloc[:, 1])
-- 
2.43.0


From f619edb44f5fe217903e08f37a94940d6b493c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:30 +0000
Subject: [PATCH 056/103] fix: power_series_all_data gives each reading of
 overlapping or unordered sections once

---
 nilmtk/electric.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 9cbcf2d..e8e6620 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -110,15 +110,9 @@ class Electric(object):
             if len(series) > 0:
                 chunks.append(series)
         if chunks:
-            # Get rid of overlapping indicies
-            prev_end = None
-            for i, chunk in enumerate(chunks):
-                if i > 0:
-                    if chunk.index[0] <= prev_end:
-                        chunks[i] = chunk.iloc[1:]
-                prev_end = chunk.index[-1]
-
             all_data = pd.concat(chunks)
+            # Get rid of overlapping indicies
+            all_data = all_data[~all_data.index.duplicated()]
         else:
             all_data = None
         return all_data
-- 
2.43.0


From 7aec3eb127f6f00e199855d7ba532fefb08c5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:43 +0000
Subject: [PATCH 057/103] fix: histogram takes its range from the first chunk
 with readings

---
 nilmtk/stats/histogram.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nilmtk/stats/histogram.py b/nilmtk/stats/histogram.py
index 84356ec..7a38ad4 100644
--- a/nilmtk/stats/histogram.py
+++ b/nilmtk/stats/histogram.py
@@ -21,6 +21,9 @@ def histogram_from_generator(generator, bins=None, range=None, **kwargs):
 
     histogram_cumulator = None
     for chunk in generator:
+        if range is None or range[0] is None or range[1] is None:
+            if np.all(np.isnan(np.asarray(chunk, dtype=float))):
+                continue  # a chunk without readings has no min or max
         if range is None:
             range = (chunk.min(), chunk.max())
         else:
-- 
2.43.0


From 404becfc3654d5c29ef6034273f1037e91506d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:25 +0000
Subject: [PATCH 058/103] fix: MeterGroup.load accepts sections whose ends are
 in different time zones

---
 nilmtk/metergroup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index b706dca..5e95356 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -723,7 +723,10 @@ class MeterGroup(Electric):
         for section in sections:
             # Do not split within a sample period
             start = normalise_timestamp(section.start, freq)
-            for split in split_timeframes([TimeFrame(start, section.end)],
+            end = section.end
+            if start.tzinfo is not None and end.tzinfo is not None:
+                end = end.tz_convert(start.tzinfo)
+            for split in split_timeframes([TimeFrame(start, end)],
                                           duration_threshold):
                 kwargs['sections'] = [section.intersection(split)]
                 index = pd.date_range(
-- 
2.43.0


From 638337c45582e1d58493c60350d7a3c0a9639913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:25 +0000
Subject: [PATCH 059/103] fix: chunk-wise training passes current_epoch by
 keyword, so that every algorithm accepts it

---
 nilmtk/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 5a24499..dd183b1 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -148,7 +148,7 @@ class API():
 
                     self.train_mains = [train_df]
                     self.train_submeters = train_appliances
-                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch)
+                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
                 
 
         print("...............Finished the Training Process ...................")
-- 
2.43.0


From 474af477c91a2e2871a2b12db37e79ac8412d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 060/103] fix: chunk-wise experiments load appliances over the
 span of each chunk of mains

---
 nilmtk/api.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index dd183b1..e3f90e1 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -1,5 +1,6 @@
 from nilmtk.dataset import DataSet
 from nilmtk.metergroup import MeterGroup
+from nilmtk.timeframe import TimeFrame
 import pandas as pd
 from nilmtk.losses import *
 import numpy as np
@@ -118,20 +119,13 @@ class API():
                 print("Loading building ... ",building)
                 train.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
                 mains_iterator = train.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)
-                appliance_iterators = [train.buildings[building].elec[app_name].load(chunksize = self.chunk_size, physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period) for app_name in self.appliances]
                 print(train.buildings[building].elec.mains())
                 for chunk_num,chunk in enumerate (train.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)):
                     # Loading the chunk for the specifeid building
                     #Dummry loop for executing on outer level. Just for looping till end of a chunk
                     print("Starting enumeration..........")
                     train_df = next(mains_iterator)
-                    appliance_readings = []
-                    for i in appliance_iterators:
-                        try:
-                            appliance_df = next(i)
-                        except StopIteration:
-                            appliance_df = pd.DataFrame()
-                        appliance_readings.append(appliance_df)
+                    appliance_readings = self.load_appliances_during(train.buildings[building].elec, train_df)
 
                     if self.DROP_ALL_NANS:
                         train_df, appliance_readings = self.dropna(train_df, appliance_readings)
@@ -163,17 +157,9 @@ class API():
                 test=DataSet(d[dataset]['path'])
                 test.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
                 mains_iterator = test.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)
-                appliance_iterators = [test.buildings[building].elec[app_name].load(chunksize = self.chunk_size, physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period) for app_name in self.appliances]
                 for chunk_num,chunk in enumerate (test.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)):
                     test_df = next(mains_iterator)
-                    appliance_readings = []
-                    for i in appliance_iterators:
-                        try:
-                            appliance_df = next(i)
-                        except StopIteration:
-                            appliance_df = pd.DataFrame()
-
-                        appliance_readings.append(appliance_df)
+                    appliance_readings = self.load_appliances_during(test.buildings[building].elec, test_df)
 
                     if self.DROP_ALL_NANS:
                         test_df, appliance_readings = self.dropna(test_df, appliance_readings)
@@ -274,6 +260,24 @@ class API():
                 self.call_predict(self.classifiers, test.metadata["timezone"])
 
 
+    def load_appliances_during(self, elec, mains_df):
+        """
+        Loads the readings of every appliance over the span of a chunk of mains
+        """
+        appliance_readings = []
+        for app_name in self.appliances:
+            # Stays empty if the appliance has no readings in this span
+            appliance_df = mains_df.iloc[:0]
+            if len(mains_df):
+                span = TimeFrame(mains_df.index[0], mains_df.index[-1] + pd.Timedelta(seconds=self.sample_period))
+                for df in elec[app_name].load(sections=[span], physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period):
+                    if not df.empty:
+                        appliance_df = df
+                    break
+            appliance_readings.append(appliance_df)
+        return appliance_readings
+
+
     def dropna(self,mains_df, appliance_dfs=[]):
         """
         Drops the missing values in the Mains reading and appliance readings and returns consistent data by copmuting the intersection
-- 
2.43.0


From 440d4392f3e6cae392b2618e599043bf006c5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 061/103] fix: experiments use the first column of every meter
 for testing and chunk-wise training too

---
 nilmtk/api.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index e3f90e1..849bfca 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -125,6 +125,7 @@ class API():
                     #Dummry loop for executing on outer level. Just for looping till end of a chunk
                     print("Starting enumeration..........")
                     train_df = next(mains_iterator)
+                    train_df = train_df.iloc[:, :1]
                     appliance_readings = self.load_appliances_during(train.buildings[building].elec, train_df)
 
                     if self.DROP_ALL_NANS:
@@ -134,7 +135,7 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            train_df+=app_reading
+                            train_df+=app_reading.set_axis(train_df.columns, axis=1)
                     train_appliances = []
 
                     for cnt,i in enumerate(appliance_readings):
@@ -159,6 +160,7 @@ class API():
                 mains_iterator = test.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)
                 for chunk_num,chunk in enumerate (test.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)):
                     test_df = next(mains_iterator)
+                    test_df = test_df.iloc[:, :1]
                     appliance_readings = self.load_appliances_during(test.buildings[building].elec, test_df)
 
                     if self.DROP_ALL_NANS:
@@ -168,7 +170,7 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         test_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            test_df+=app_reading
+                            test_df+=app_reading.set_axis(test_df.columns, axis=1)
 
                     test_appliances = []
 
@@ -211,7 +213,7 @@ class API():
                     print ("Creating an Artificial Aggregate")
                     train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                     for app_reading in appliance_readings:
-                        train_df+=app_reading
+                        train_df+=app_reading.set_axis(train_df.columns, axis=1)
 
                 self.train_mains.append(train_df)
                 for i,appliance_name in enumerate(self.appliances):
@@ -234,6 +236,7 @@ class API():
             for building in d[dataset]['buildings']:
                 test.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
                 test_mains=next(test.buildings[building].elec.mains().load(physical_quantity='power', ac_type=self.power['mains'], sample_period=self.sample_period))
+                test_mains = test_mains.iloc[:, :1]
                 if self.DROP_ALL_NANS and self.site_only:
                     test_mains, _= self.dropna(test_mains,[])
 
@@ -242,6 +245,7 @@ class API():
 
                     for appliance in self.appliances:
                         test_df=next((test.buildings[building].elec[appliance].load(physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period)))
+                        test_df = test_df.iloc[:, :1]
                         appliance_readings.append(test_df)
                     
                     if self.DROP_ALL_NANS:
@@ -251,7 +255,7 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         test_mains = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            test_mains+=app_reading
+                            test_mains+=app_reading.set_axis(test_mains.columns, axis=1)
                     for i, appliance_name in enumerate(self.appliances):
                         self.test_submeters.append((appliance_name,[appliance_readings[i]]))
 
@@ -272,7 +276,7 @@ class API():
                 span = TimeFrame(mains_df.index[0], mains_df.index[-1] + pd.Timedelta(seconds=self.sample_period))
                 for df in elec[app_name].load(sections=[span], physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period):
                     if not df.empty:
-                        appliance_df = df
+                        appliance_df = df.iloc[:, :1]
                     break
             appliance_readings.append(appliance_df)
         return appliance_readings
-- 
2.43.0


From 1e66d36332bd4a84b0403d58e9f5aa4e1b294239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 062/103] fix: predictions stay on the instants of the mains
 readings they were made from

---
 nilmtk/api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 849bfca..224d11e 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -404,12 +404,14 @@ class API():
             plt.legend()
 
         else:
+            # The predictions are for the instants of the mains, in order
+            test_index = pd.concat(test_elec, axis=0).index
             for app_name in concat_pred_df.columns:
                 app_series_values = concat_pred_df[app_name].values.flatten()
                 # Neural nets do extra padding sometimes, to fit, so get rid of extra predictions
-                app_series_values = app_series_values[:len(gt_overall[app_name])]
-                pred[app_name] = pd.Series(app_series_values, index = gt_overall.index)
-            pred_overall = pd.DataFrame(pred,dtype='float32')
+                app_series_values = app_series_values[:len(test_index)]
+                pred[app_name] = pd.Series(app_series_values, index = test_index)
+            pred_overall = pd.DataFrame(pred,dtype='float32').reindex(gt_overall.index)
         
         return gt_overall, pred_overall
 
-- 
2.43.0


From 0daf7f4d401fb1cfd86a82e29c4d8039eba16baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:15 +0000
Subject: [PATCH 063/103] fix: columns are loaded in the order asked for
 instead of in hash order

---
 nilmtk/elecmeter.py  | 10 +++++-----
 nilmtk/metergroup.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 9c9572d..e665ec3 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -293,8 +293,8 @@ class ElecMeter(Hashable, Electric):
         list of 2-tuples of strings e.g. [('power', 'active')]
         """
         measurements = self.device['measurements']
-        return list(set([(m['physical_quantity'], m.get('type', ''))
-                         for m in measurements]))
+        return list(dict.fromkeys([(m['physical_quantity'], m.get('type', ''))
+                                   for m in measurements]))
 
     def __repr__(self):
         string = super(ElecMeter, self).__repr__()
@@ -476,7 +476,7 @@ class ElecMeter(Hashable, Electric):
 
         if isinstance(ac_type, list):
             cols2d = [self._ac_type_to_columns(a_t) for a_t in ac_type]
-            return list(set(flatten_2d_list(cols2d)))
+            return list(dict.fromkeys(flatten_2d_list(cols2d)))
 
         check_ac_type(ac_type)
         cols_matching = [col for col in self.available_columns()
@@ -490,7 +490,7 @@ class ElecMeter(Hashable, Electric):
         if isinstance(physical_quantity, list):
             cols2d = [self._physical_quantity_to_columns(p_q)
                       for p_q in physical_quantity]
-            return list(set(flatten_2d_list(cols2d)))
+            return list(dict.fromkeys(flatten_2d_list(cols2d)))
 
         check_physical_quantity(physical_quantity)
         cols_matching = [col for col in self.available_columns()
@@ -559,7 +559,7 @@ class ElecMeter(Hashable, Electric):
                     msg += ("Physical quantity '{}' not available. "
                             .format(physical_quantity))
                 if columns:
-                    columns = list(set(columns).intersection(cols_matching_pq))
+                    columns = [c for c in columns if c in cols_matching_pq]
                     if not columns:
                         msg += ("No measurement matching ({}, {}). "
                                 .format(physical_quantity, ac_type))
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 5e95356..1d3745e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -736,14 +736,14 @@ class MeterGroup(Electric):
                 yield chunk
 
     def _convert_physical_quantity_and_ac_type_to_cols(self, **kwargs):
-        all_columns = set()
+        all_columns = {}
         kwargs = deepcopy(kwargs)
         for meter in self.meters:
             kwargs_copy = deepcopy(kwargs)
             new_kwargs = meter._convert_physical_quantity_and_ac_type_to_cols(**kwargs_copy)
             columns = new_kwargs.get('columns', [])
             for col in columns:
-                all_columns.add(col)
+                all_columns[col] = None
         kwargs['columns'] = list(all_columns)
         return kwargs
 
-- 
2.43.0


From d17625938ebcf699ee2872f13b97514a36332ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 064/103] fix: convert houses and channels whose numbers have
 more digits

---
 nilmtk/dataset_converters/redd/convert_redd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/redd/convert_redd.py b/nilmtk/dataset_converters/redd/convert_redd.py
index 798cd12..d126568 100644
--- a/nilmtk/dataset_converters/redd/convert_redd.py
+++ b/nilmtk/dataset_converters/redd/convert_redd.py
@@ -110,7 +110,7 @@ def _find_all_houses(input_path):
     list of integers (house instances)
     """
     dir_names = [p for p in listdir(input_path) if isdir(join(input_path, p))]
-    return _matching_ints(dir_names, r'^house_(\d)$')
+    return _matching_ints(dir_names, r'^house_(\d+)$')
 
 
 def _find_all_chans(input_path, house_id):
@@ -121,7 +121,7 @@ def _find_all_chans(input_path, house_id):
     """
     house_path = join(input_path, 'house_{:d}'.format(house_id))
     filenames = [p for p in listdir(house_path) if isfile(join(house_path, p))]
-    return _matching_ints(filenames, r'^channel_(\d\d?).dat$')
+    return _matching_ints(filenames, r'^channel_(\d+)\.dat$')
 
 
 def _matching_ints(strings, regex):
-- 
2.43.0


From 227175c909f18a776bb6480e2acadb637b6bc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 065/103] fix: CSVDataStore.open accepts a mode, so UK-DALE can
 be converted to CSV

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index eedc795..bd2c9b4 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -230,7 +230,7 @@ class CSVDataStore(DataStore):
         pass
 
     @doc_inherit
-    def open(self):
+    def open(self, mode='a'):
         # not needed for CSV data store
         pass
         
-- 
2.43.0


From 6a3699ab96459c0dbc494f1956761d5d0c07f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 066/103] fix: name the axis when dropping the time stamp
 column in converters

---
 nilmtk/dataset_converters/ampds/convert_ampds.py   | 2 +-
 nilmtk/dataset_converters/caxe/convert_caxe.py     | 2 +-
 nilmtk/dataset_converters/combed/convert_combed.py | 2 +-
 nilmtk/dataset_converters/iawe/convert_iawe.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index e86ca6f..ca5be74 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -67,7 +67,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         # Due to fixed width, column names have spaces :(
         df.columns = [x.replace(" ", "") for x in df.columns]
         df.index = pd.to_datetime(df[TIMESTAMP_COLUMN_NAME], unit='s', utc=True)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df = df.tz_convert(TIMEZONE)
         df.columns = pd.MultiIndex.from_tuples(
             [columnNameMapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index e504963..9cf963d 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -37,7 +37,7 @@ def convert_caxe(file_path):
     print('Loading ', 1)
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
-    df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+    df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
     df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 4783e2a..c6e59a0 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -69,7 +69,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
-                        df = df.drop("timestamp", 1)
+                        df = df.drop("timestamp", axis=1)
                         dfs.append(df)
                     else:
                         exists = False
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 9071462..145555e 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -74,7 +74,7 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df.drop_duplicates(subset=["timestamp"], inplace=True)
         df.index = pd.to_datetime(df.timestamp.values, unit='s', utc=True)
         df = df.tz_convert(TIMEZONE)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df.columns = pd.MultiIndex.from_tuples(
             [column_mapping[x] for x in df.columns],
             names=LEVEL_NAMES
-- 
2.43.0


From 9c8151bdb6e8e0f63974af820fe5ad9f71af07e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 067/103] fix: convert_combed closes the store it has written

---
 nilmtk/dataset_converters/combed/convert_combed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index c6e59a0..fe8a005 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -85,7 +85,8 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                     
     if not any_file_converted:
         raise RuntimeError('No files converted, did you specify the correct path?')
-                    
+
+    store.close()
     convert_yaml_to_hdf5(
         join(get_module_directory(), 'dataset_converters', 'combed', 'metadata'),
         output_filename
-- 
2.43.0


From 7bb4a2451f803a43ac63d0ab4580247e77d13723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 068/103] fix: COMBED meters without a file of currents are
 converted too

---
 nilmtk/dataset_converters/combed/convert_combed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index fe8a005..b75a0e8 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -65,16 +65,13 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         filename_attribute = join(combed_path, 'iiitd', building_name, load_name, load_mapping_path, "%s.csv" %attribute)
                     
                     if os.path.isfile(filename_attribute):
-                        exists = True
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
                         df = df.drop("timestamp", axis=1)
                         dfs.append(df)
-                    else:
-                        exists = False
                         
-                if exists:
+                if dfs:
                     total = pd.concat(dfs, axis=1)
                     total = total.tz_localize('UTC').tz_convert('Asia/Kolkata')
                     total.columns = pd.MultiIndex.from_tuples([column_mapping[x] for x in total.columns])
-- 
2.43.0


From 11e9e0e6dad0ec1c73d77fa7f086222bba5d53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:50 +0000
Subject: [PATCH 069/103] fix: full results of the dropout rate within good
 sections

---
 nilmtk/elecmeter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index e665ec3..d98467d 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -621,7 +621,9 @@ class ElecMeter(Hashable, Electric):
         """
         nodes = [DropoutRate]
         if ignore_gaps:
-            loader_kwargs['sections'] = self.good_sections(**loader_kwargs)
+            sections_kwargs = loader_kwargs.copy()
+            sections_kwargs.pop('full_results', None)
+            loader_kwargs['sections'] = self.good_sections(**sections_kwargs)
 
         return self._get_stat_from_cache_or_compute(
             nodes, DropoutRate.results_class(), loader_kwargs)
-- 
2.43.0


From 9b925de8061d009cb166213ac5ba7be4a2c8648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 070/103] fix: proportion_of_upstream is NaN when the best AC
 type is recorded by only one of the meters

The ratio was taken at the best AC type of either meter; use the best
AC type that both the meter and its upstream meter record.
---
 nilmtk/electric.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index e8e6620..0c9ad99 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -208,13 +208,13 @@ class Electric(object):
         """
         upstream = self.upstream_meter()
         upstream_good_sects = upstream.good_sections(**load_kwargs)
-        proportion_of_energy = (self.total_energy(sections=upstream_good_sects) /
-                                upstream.total_energy(sections=upstream_good_sects))
-        if isinstance(proportion_of_energy, pd.Series):
-            best_ac_type = select_best_ac_type(proportion_of_energy.keys())
-            return proportion_of_energy[best_ac_type]
-        else:
-            return proportion_of_energy
+        energy = self.total_energy(sections=upstream_good_sects)
+        upstream_energy = upstream.total_energy(sections=upstream_good_sects)
+        shared_ac_types = energy.index.intersection(upstream_energy.index)
+        if shared_ac_types.empty:
+            return np.nan
+        best_ac_type = select_best_ac_type(shared_ac_types)
+        return energy[best_ac_type] / upstream_energy[best_ac_type]
 
     def vampire_power(self, **load_kwargs):
         # TODO: this might be a naive approach to calculating vampire power.
-- 
2.43.0


From a045632b4529288d76e895e0cea4c5ebefffbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 071/103] fix: energy_per_meter with mains raises
 AttributeError

Series.sort no longer exists, and the AC types to choose from are
those of the meters, not the meters themselves.
---
 nilmtk/metergroup.py | 2 +-
 nilmtk/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 1d3745e..a5f58e2 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1197,7 +1197,7 @@ class MeterGroup(Electric):
 
     def _energy_per_meter_with_remainder(self, energy_per_meter,
                                          mains, per_period, **kwargs):
-        ac_types = energy_per_meter.keys()
+        ac_types = np.repeat(energy_per_meter.index, energy_per_meter.count(axis=1))
         energy_per_meter = energy_per_meter.sum() # Collapse AC_TYPEs into Series
 
         # Find most common ac_type in energy_per_meter:
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 35b3641..b3af055 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -362,7 +362,7 @@ def most_common(lst):
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
     counts = pd.Series(counts)
-    counts.sort()
+    counts.sort_values(inplace=True)
     most_common = counts.index[-1]
     return most_common
 
-- 
2.43.0


From 3450e582e2aec055fbf22d6b820056d4816df8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 072/103] fix: activity_histogram raises TypeError

The 'closed' argument of pandas.date_range is now 'inclusive'.
---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 0c9ad99..469fed9 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -694,7 +694,7 @@ class Electric(object):
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
             # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, closed='left')
+            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
             on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
 
             # reshape
-- 
2.43.0


From c328e22c37da17d1f1e511d6921e4d1619b80b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 073/103] fix: groupby fails for meters without appliance and
 loses equal identifiers

---
 nilmtk/metergroup.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index a5f58e2..82b8d5e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -500,10 +500,13 @@ class MeterGroup(Electric):
         return list(appliances)
 
     def dominant_appliances(self):
-        appliances = set()
+        # Appliances of different buildings may have equal identifiers
+        appliances = {}
         for meter in self.meters:
-            appliances.add(meter.dominant_appliance())
-        return list(appliances)
+            appliance = meter.dominant_appliance()
+            if appliance is not None:
+                appliances[id(appliance)] = appliance
+        return list(appliances.values())
 
     def values_for_appliance_metadata_key(self, key, 
                                           only_consider_dominant_appliance=True):
-- 
2.43.0


From 73334452a3f7be500a63b917fc3b83b8562464f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 074/103] fix: disaggregation models can't be exported

---
 nilmtk/elecmeter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index d98467d..b5722cc 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -68,6 +68,16 @@ class ElecMeter(Hashable, Electric):
             else:
                 all_meters.append(self)
 
+    def __getstate__(self):
+        # The cache can't be pickled and belongs to this process
+        state = self.__dict__.copy()
+        state.pop('cache', None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.cache = nilmtk.STATS_CACHE
+
     @property
     def key(self):
         return self.metadata['data_location']
-- 
2.43.0


From 126a22e9f15045182f525b8f1b97d7c4c6ebbaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 075/103] fix: legacy Hart85 assigns power from single-column
 centroids

---
 nilmtk/legacy/disaggregate/hart_85.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index e2042bf..a1adf8b 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -362,7 +362,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            level = self.centroids.loc[appliance].values
             if ndim == 1:
+                level = level[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -373,10 +375,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = level
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = level
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -409,10 +411,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = level
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = level
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From 7513b922e154f5c41cbe39dfe3d3b482514df7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 076/103] fix: legacy Hart85 fails without transitions and
 guesses states from the end

---
 nilmtk/legacy/disaggregate/hart_85.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index a1adf8b..74b4384 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -325,13 +325,12 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0]][index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
 
         # Check whether 1d data or 2d data and converting dict to dataframe
-        if len(transient_tuple) == 2:
+        if len(self.centroids.columns) == 1:
 
             temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)
             return temp_df, 2
-- 
2.43.0


From d2d20204f69bf26b4d93f32622a1bc5ff15beb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 077/103] fix: legacy Hart85 stores only the last chunk of
 mains

---
 nilmtk/legacy/disaggregate/hart_85.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 74b4384..5dcde9b 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -490,14 +490,12 @@ class Hart85(Disaggregator):
 
         print('Appending mains data to datastore')
 
-        for chunk_mains in mains.load(ac_type=ac_type):
-            chunk_df = chunk_mains
-
-        chunk_df = chunk_df.apply(pd.to_numeric).astype('float32')
+        for chunk_df in mains.load(ac_type=ac_type, **load_kwargs):
+            chunk_df = chunk_df.apply(pd.to_numeric).astype('float32')
+            output_datastore.append(key=mains_data_location,
+                                    value=chunk_df)
         print('Done')
 
-        output_datastore.append(key=mains_data_location,
-                                value=chunk_df)
         # save metadata
         if data_is_available:
             self._save_metadata_for_disaggregation(
-- 
2.43.0


From 4ea89eeb084c6b4e4bff2f3cf3392f3eca4e13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 078/103] fix: Hart85.import_model can't read a model and
 forgets its matches

---
 nilmtk/disaggregate/hart_85.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index e9c8f78..7e23578 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -584,8 +584,10 @@ class Hart85(Disaggregator):
         pickle_out.close()
 
     def import_model(self, filename):
-        pickle_in = open(filename)
-        self.model = pickle.load(pickle_in)
+        with open(filename, "rb") as pickle_in:
+            self.model = pickle.load(pickle_in)
+        self.best_matches = self.model['best_matches']
+        self.appliances = list(self.best_matches)
         self.columns = self.model['columns']
         self.state_threshold = self.model['state_threshold']
         self.noise_level = self.model['noise_level']
-- 
2.43.0


From b0b0f3d7ac2d44e9dddfdef63f7fa5041fe595dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 079/103] fix: MeterGroup.appliances drops appliances with
 equal identifiers

The appliances were collected in a set, and appliances of different
buildings (or datasets) are equal when their type and instance are.
---
 nilmtk/metergroup.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 82b8d5e..530ed17 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -494,10 +494,12 @@ class MeterGroup(Electric):
 
     @property
     def appliances(self):
-        appliances = set()
+        # Appliances of different buildings may have equal identifiers
+        appliances = {}
         for meter in self.meters:
-            appliances.update(meter.appliances)
-        return list(appliances)
+            for appliance in meter.appliances:
+                appliances[id(appliance)] = appliance
+        return list(appliances.values())
 
     def dominant_appliances(self):
         # Appliances of different buildings may have equal identifiers
-- 
2.43.0


From d702ff5307592dfbbaae9536f5b6d5e390a23562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 080/103] fix: MeterGroup.from_other_metergroup returns an
 empty group or raises

It looked the meters up in a new, empty group, discarded the result, and
could not handle the identifiers of nested groups.
---
 nilmtk/metergroup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 530ed17..c69e324 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -15,6 +15,7 @@ from matplotlib.ticker import FuncFormatter
 from matplotlib import MatplotlibDeprecationWarning
 
 # NILMTK imports
+import nilmtk
 from .elecmeter import ElecMeter, ElecMeterID
 from .appliance import Appliance
 from .datastore.datastore import join_key
@@ -470,8 +471,9 @@ class MeterGroup(Electric):
         other_identifiers = other.identifier.meters
         new_identifiers = []
         for other_id in other_identifiers:
-            new_id = other_id._replace(dataset=dataset)
-            if isinstance(new_id.instance, tuple):
+            new_id = replace_dataset(other_id, dataset)
+            if (isinstance(new_id, ElecMeterID) and
+                    isinstance(new_id.instance, tuple)):
                 nested = []
                 for instance in new_id.instance:
                     new_nested_id = new_id._replace(instance=instance)
@@ -479,9 +481,7 @@ class MeterGroup(Electric):
                 new_identifiers.append(tuple(nested))
             else:
                 new_identifiers.append(new_id)
-        metergroup = MeterGroup()
-        metergroup.from_list(new_identifiers)
-        return metergroup
+        return nilmtk.global_meter_group.from_list(new_identifiers)
 
     def __eq__(self, other):
         if isinstance(other, MeterGroup):
-- 
2.43.0


From 443c96eabacfc23709f6af30a4a21f8d3ae841b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 081/103] fix: dropout rate unified over more than two meters
 is not their mean

Each unification averaged the running mean with the next meter, so the
last meter weighed one half, whatever the number of meters.
---
 nilmtk/stats/dropoutrateresults.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 5a3a268..6087f4f 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -33,14 +33,21 @@ class DropoutRateResults(Results):
         dropout_rate = (data['dropout_rate'] * proportion).sum()
         return dropout_rate
 
+    #: number of tables of data which have been unified in this object
+    n_tables = 1
+
     def unify(self, other):
         super(DropoutRateResults, self).unify(other)
+        n_tables = self.n_tables + other.n_tables
         for i, row in self._data.iterrows():
             # store mean of dropout rate
-            self._data['dropout_rate'].loc[i] += other._data['dropout_rate'].loc[i]
-            self._data['dropout_rate'].loc[i] /= 2
-            
+            self._data['dropout_rate'].loc[i] *= self.n_tables
+            self._data['dropout_rate'].loc[i] += (
+                other._data['dropout_rate'].loc[i] * other.n_tables)
+            self._data['dropout_rate'].loc[i] /= n_tables
+
             self._data['n_samples'].loc[i] += other._data['n_samples'].loc[i]
+        self.n_tables = n_tables
 
     def to_dict(self):
         return {'statistics': {'dropout_rate': self.combined()}}
-- 
2.43.0


From 852e2ba0a01b9abbae4e2ae0a613c8030c5349df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 082/103] fix: GREEND converter raises TypeError on every file

---
 nilmtk/dataset_converters/greend/convert_greend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index ace3ef9..b8f879e 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -41,10 +41,11 @@ def _get_blocks(filename):
         block_data.seek(0)
         try:
             # ignore extra fields for some files
-            error_bad_lines = not (
-                ('building5' in filename and 'dataset_2014-02-04.csv' in filename)
+            skip_bad_lines = (
+                'building5' in filename and 'dataset_2014-02-04.csv' in filename
             )
-            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, error_bad_lines=error_bad_lines)
+            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes,
+                             on_bad_lines='skip' if skip_bad_lines else 'error')
         except: #(pd.errors.ParserError, ValueError, TypeError):
             print("ERROR", filename)
             raise
-- 
2.43.0


From f2c74ac73e68d233ef606608fe68fb337352c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 083/103] fix: GREEND converter numbers meters by directory
 order without multiprocessing

---
 nilmtk/dataset_converters/greend/convert_greend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index b8f879e..399c854 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -132,7 +132,7 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
     for house in houses:
         print('Loading', house)
         abs_house = join(greend_path, house)
-        dates = [d for d in listdir(abs_house) if d.startswith('dataset')]
+        dates = sorted(d for d in listdir(abs_house) if d.startswith('dataset'))
         target_filenames = [join(abs_house, date) for date in dates]
         if use_mp:
             house_data = pool.map(_get_blocks, target_filenames)
-- 
2.43.0


From 69cc87d1210d5b0bf2da75e9d8ee91022731ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 084/103] fix: HES converter raises TypeError when it loads the
 house ids

---
 nilmtk/dataset_converters/hes/convert_hes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index eaf2c72..0f9ce62 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -56,7 +56,7 @@ CIRCUIT_CODES = list(range(208, 218)) + [222]
 def load_list_of_house_ids(data_dir):
     """Returns a list of house IDs in HES (ints)."""
     filename = join(data_dir, 'anonhes', 'ipsos-anonymised-corrected_310713.csv')
-    series = pd.read_csv(filename, usecols=[0], index_col=False, squeeze=True)
+    series = pd.read_csv(filename, usecols=[0], index_col=False).iloc[:, 0]
     return series.tolist()
 
 
-- 
2.43.0


From 14c2c56e5b831cb5248f08510d4facfa65ddfc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 085/103] fix: HES converter stores all readings of a house
 under each of its meters

---
 nilmtk/dataset_converters/hes/convert_hes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index 0f9ce62..a9463ca 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -163,11 +163,11 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
                 nilmtk_house_id = house_codes.index(hes_house_id)+1
                 
                 # Iterate over appliances in house
-                for appliance_code, appliance_df in chunk.groupby('appliance code'):
+                for appliance_code, appliance_df in hes_house_id_df.groupby('appliance code'):
                     if appliance_code not in house_appliance_codes[hes_house_id]:
                         house_appliance_codes[hes_house_id].append(appliance_code)
                     nilmtk_meter_id = house_appliance_codes[hes_house_id].index(appliance_code)+1
-                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, hes_house_id_df, store, appliance_code)
+                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, appliance_df, store, appliance_code)
                     
             chunk_i += 1
             
-- 
2.43.0


From f224c475a1a44a4ccba8a699043e57472ea36f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 086/103] fix: HES converter describes no appliance after a
 mains, circuit or temperature channel

---
 nilmtk/dataset_converters/hes/convert_hes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index a9463ca..dcde89d 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -194,12 +194,12 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
             if appliance_code in MAINS_CODES:
                 meter_metadata = {'device_model': 'multivoies',
                                   'site_meter': True}
-                break
+                continue
             elif appliance_code in CIRCUIT_CODES:
                 meter_metadata = {'device_model': 'multivoies'}
-                break
+                continue
             elif appliance_code in TEMPERATURE_CODES:
-                break
+                continue
             else: # is appliance
                 meter_metadata = {'device_model': 'wattmeter'}
                 
-- 
2.43.0


From 5507d8d0156eb344eb67937aecdcb712c0584b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 087/103] fix: HIPE converter looks for its metadata in the
 working directory

---
 nilmtk/dataset_converters/hipe/convert_hipe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hipe/convert_hipe.py b/nilmtk/dataset_converters/hipe/convert_hipe.py
index 541bf35..0faec3d 100644
--- a/nilmtk/dataset_converters/hipe/convert_hipe.py
+++ b/nilmtk/dataset_converters/hipe/convert_hipe.py
@@ -35,7 +35,10 @@ def convert_hipe(hipe_path, output_filename, format="HDF"):
     _convert(hipe_path, datastore,
              _hipe_measurement_mapping_func, "Europe/Berlin")
 
-    metadata_path = "metadata"
+    metadata_path = join(get_module_directory(),
+                         "dataset_converters",
+                         "hipe",
+                         "metadata")
 
     save_yaml_to_datastore(metadata_path, datastore)
 
-- 
2.43.0


From 0f4a77f66ce0226e4b9d5c8635ebf154515e665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 088/103] fix: Dataport converter mixes up meters when files of
 a building differ in columns

---
 .../dataport/csv_converter.py                   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index 8e1aeb3..78395cd 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -334,8 +334,14 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         nilmtk_b_id = tuple(nilmtk_metadata).index(b_id) + 1
         nilmtk_metadata[b_id]["instance"] = nilmtk_b_id
 
-    for m_id, meter in enumerate(b_data.columns):
-        key = nilmtk.datastore.Key(building=nilmtk_b_id, meter=m_id + 1)
+    # Meters already known from the previous files
+    elec_meters = nilmtk_metadata[b_id]["elec_meters"]
+    known = { app["original_name"]: app["meters"][0]
+              for app in nilmtk_metadata[b_id]["appliances"] }
+    known.update({ "use": m for m, md in elec_meters.items() if "site_meter" in md })
+    for meter in b_data.columns:
+        m_id = known.get(meter, len(elec_meters) + 1)
+        key = nilmtk.datastore.Key(building=nilmtk_b_id, meter=m_id)
         msg = "\tWriting {}".format(str(key))
         print(msg, end='\r')
         # Meter data.
@@ -345,11 +351,14 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         hdf_store.put(str(key), m_data, format="table", append=True)
         hdf_store.flush()
         # Meter & appliance metadata
+        if meter in known:
+            continue
+
         if meter == 'use':
             meter_metadata = { "device_model": "eGauge", "site_meter": True }
         else:
             meter_metadata = { "device_model": "eGauge", "submeter_of": 0 }
-            app_metadata = { "original_name": meter, "meters": [ m_id + 1, ] }
+            app_metadata = { "original_name": meter, "meters": [ m_id, ] }
             app_metadata.update(COL_MAPPING[meter])
             app_id = 1
             app_type = app_metadata["type"]
@@ -360,7 +369,7 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
             app_metadata["instance"] = app_id
             nilmtk_metadata[b_id]["appliances"].append(app_metadata)
 
-        nilmtk_metadata[b_id]["elec_meters"][m_id + 1] = meter_metadata
+        elec_meters[m_id] = meter_metadata
         print("\t" + " " * len(msg), end='\r')
 
     print("\tWriting done.")
-- 
2.43.0


From f7e282d6eb57148ed1b0ed4297fb624d6a435afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 089/103] fix: SMART converter depends on directory order and
 changes the working directory

---
 nilmtk/dataset_converters/smart/convert_smart.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index cede480..f7eaf07 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -211,7 +211,7 @@ def _find_year(input_path, house_id):
                 'Home' +
                 house_id,
                 p))]
-    return year_names
+    return sorted(year_names)
 
 
 def _find_all_csv_paths(input_path, house_id, year):
@@ -221,11 +221,7 @@ def _find_all_csv_paths(input_path, house_id, year):
     list of csv paths of data (with respect to a house and a particular year )
     """
     house_year_path = (input_path + '/' + 'Home' + house_id + '/' + year)
-    extension = 'csv'
-    os.chdir(house_year_path)
-    csv_names = glob.glob(house_year_path + '/*.csv')
-
-    txt_paths = glob.glob(house_year_path + '/*.txt')
+    txt_paths = sorted(glob.glob(house_year_path + '/*.txt'))
 
     paths = []
     # Take only those csv files which have 30 minutes as sample period
-- 
2.43.0


From 46328a36c911af2b0226e5fb5a53a9ae7e45eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 090/103] fix: SMART converter stores kilowatts as watts

---
 nilmtk/dataset_converters/smart/convert_smart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index f7eaf07..49d78d2 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -145,7 +145,7 @@ def _convert(input_path, store, measurement_mapping_func, tz, sort_index=True):
             print(chan_id, end=' ')
             stdout.flush()
             key = Key(building=b_cnt, meter=chan_id)
-            chan_df = pd.DataFrame(df_all_years[col])
+            chan_df = pd.DataFrame(df_all_years[col]) * 1000  # kW to W
             chan_df.columns = pd.MultiIndex.from_tuples([('power', 'active')])
             chan_df.columns.set_names(LEVEL_NAMES, inplace=True)
 
-- 
2.43.0


From bc15bce1c02146d6434931bc9c17b8874fc66cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:37 +0000
Subject: [PATCH 091/103] fix: bounds set while a time frame is disabled may
 end before they start

---
 nilmtk/timeframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 5a421f8..b6ca7b6 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -80,7 +80,7 @@ class TimeFrame(object):
             self._start = None
             return
         new_start = pd.Timestamp(new_start)
-        if self.end and new_start >= self.end:
+        if self._end and new_start >= self._end:
             raise ValueError("start date must be before end date")
         else:
             self._start = new_start
@@ -92,7 +92,7 @@ class TimeFrame(object):
             self._end = None
             return
         new_end = pd.Timestamp(new_end)
-        if self.start and new_end <= self.start:
+        if self._start and new_end <= self._start:
             raise ValueError("end date must be after start date")
         else:
             self._end = new_end
-- 
2.43.0


From 1078925d5413f1bf234c7f16f122e4cd3318a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:37 +0000
Subject: [PATCH 092/103] fix: time frames without a start cannot be sorted

---
 nilmtk/timeframe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index b6ca7b6..927f402 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -238,10 +238,10 @@ class TimeFrame(object):
                 (other.empty == self.empty))
 
     def __lt__(self, other):
-        if self.start is None and other.start is not None:
-            return True
-        if other.start is None and self.start is not None:
+        if other.start is None:
             return False
+        if self.start is None:
+            return True
         return self.start < other.start
 
     def __hash__(self):
-- 
2.43.0


From b491b2c6746fa0f9b4c6ad85fb57d8e71e06c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 093/103] fix: entropy of a meter takes the mean of a list, not
 of a map object

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 469fed9..34776cb 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -513,7 +513,7 @@ class Electric(object):
             tree = ss.cKDTree(z)
             nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in z]
             const = digamma(N)-digamma(k) + d*log(2)
-            return (const + d*np.mean(map(log, nn)))/log(base)
+            return (const + d*np.mean([log(dist) for dist in nn]))/log(base)
 
         out = []
         for power in self.power_series():
-- 
2.43.0


From e628d2c1844ebe1d43300762d9176712a43070c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 094/103] fix: entropy and mutual information of long series
 split into a whole number of pieces

---
 nilmtk/electric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 34776cb..51796c3 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -522,7 +522,7 @@ class Electric(object):
             x = x.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
 
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 y = np.array_split(x, splits)
                 for z in y:            
                     out.append(kdtree_entropy(z))                    
@@ -578,7 +578,7 @@ class Electric(object):
             power_x_val = power_x_val.reshape((num_elements, 1))
             power_y_val = power_y_val.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 x_split = np.array_split(power_x_val, splits)
                 y_split = np.array_split(power_y_val, splits)
                 for x, y  in zip(x_split, y_split):
-- 
2.43.0


From 0b57f7a8143cadcff1e0b0e5daf7b31025610fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 095/103] fix: mutual information left the boundary point out
 only at short distances

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 51796c3..ac30ff3 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -566,7 +566,7 @@ class Electric(object):
                 dist = dvec[i]
                 #subtlety, we don't include the boundary point, 
                 #but we are implicitly adding 1 to kraskov def bc center point is included
-                num_points = len(tree.query_ball_point(points[i],dist-1e-15,p=float('inf'))) 
+                num_points = len(tree.query_ball_point(points[i],np.nextafter(dist, 0),p=float('inf'))) 
                 avg += digamma(num_points)/N
             return avg
 
-- 
2.43.0


From 577fe2b8d8c6308ccae3b9878042f0645baf6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:20 +0000
Subject: [PATCH 096/103] fix: RMS errors of appliances with the same label
 name building and instance

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index b3af055..93c74a3 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -454,8 +454,8 @@ def compute_rmse(ground_truth, predictions, pretty=True):
                 app = app_data[0]
                 app_data[1] = '{} ({}, {})'.format(
                     current_label,
-                    app.building,
-                    app.instance
+                    app.building(),
+                    app.instance()
                 )
             
     return pd.Series(dict(
-- 
2.43.0


From 656fe3ce7be0fdecccb112277c66c69f2e2b0a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:20 +0000
Subject: [PATCH 097/103] fix: RMS errors compare each appliance with its own
 predictions

---
 nilmtk/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 93c74a3..676a834 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -414,7 +414,11 @@ def compute_rmse(ground_truth, predictions, pretty=True):
     
     rms_error = []
     app_counts = defaultdict(int)
+    same_columns = predictions.columns.equals(ground_truth.columns)
     for app_idx, app in enumerate(ground_truth.columns):
+        if not same_columns and app not in predictions.columns:
+            continue
+
         if pretty:
             try:
                 app_label = app.label()
@@ -425,7 +429,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
             app_label = app
         
         gt_app = ground_truth.iloc[:, app_idx]
-        pred_app = predictions.iloc[:, app_idx]
+        pred_app = predictions.iloc[:, app_idx] if same_columns else predictions[app]
         if pred_app.empty: 
             continue
             
-- 
2.43.0


From 3927455bed345d8786c9553bbd8f182cba1d3fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 098/103] fix: CAXE converter drops the time zone of its
 readings

---
 nilmtk/dataset_converters/caxe/convert_caxe.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index 9cf963d..95c4e7b 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -38,7 +38,6 @@ def convert_caxe(file_path):
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
     df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
-    df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
                 names=LEVEL_NAMES
-- 
2.43.0


From ba35df5e457a6de0949bdc9585b84667fd5ef552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 099/103] fix: CAXE converter finds its metadata from any
 working directory

---
 nilmtk/dataset_converters/caxe/convert_caxe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index 95c4e7b..60a7540 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -1,3 +1,4 @@
+from os.path import join
 import pandas as pd
 import numpy as np
 from nilmtk.datastore import Key
@@ -50,7 +51,8 @@ def convert_caxe(file_path):
     assert df.isnull().sum().sum() == 0
     store.put(str(key), df)
     store.close()
-    convert_yaml_to_hdf5('./metadata', output_filename)
+    convert_yaml_to_hdf5(join(get_module_directory(), 'dataset_converters', 'caxe', 'metadata'),
+                         output_filename)
 
     print("Done converting test data to HDF5!")
 
-- 
2.43.0


From c9439bc554bbf65b018e46d843ccf994fed2134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:43 +0000
Subject: [PATCH 100/103] fix: get_datastore refuses to open a store without a
 name instead of returning None

---
 nilmtk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 676a834..a11b8c2 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -326,7 +326,7 @@ def get_datastore(filename, format=None, mode='r'):
         else:
             raise ValueError('format not recognised')
     else:
-        ValueError('filename is None')
+        raise ValueError('filename is None')
 
 
 def normalise_timestamp(timestamp, freq):
-- 
2.43.0


From 361fc0e59ce8fdf75c6d880cb342ac60367395b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:42 +0000
Subject: [PATCH 101/103] fix: resampling leaves the caller's resample_kwargs
 as they were for the next load

---
 nilmtk/elecmeter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index b5722cc..f7c1c9c 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -441,7 +441,8 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            resample_kwargs = dict(kwargs.get('resample_kwargs', {}))
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
-- 
2.43.0


From ae2ff4fc69939e95488972bfc1689ff6c42251d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:42 +0000
Subject: [PATCH 102/103] fix: resampling does not add itself to the caller's
 list of preprocessing nodes

---
 nilmtk/electric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index ac30ff3..f8b2dc8 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -140,8 +140,8 @@ class Electric(object):
                 resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            kwargs['preprocessing'] = kwargs.get('preprocessing', []) + [
+                Apply(func=resample_func)]
 
         return kwargs
 
-- 
2.43.0


From a9017c622219f907487a0f0b7af831f20069037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:37 +0000
Subject: [PATCH 103/103] fix: a sample_period of None loads with the meter's
 own sample period as documented

---
 nilmtk/elecmeter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index f7c1c9c..4860546 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -436,7 +436,9 @@ class ElecMeter(Hashable, Electric):
             print("ElecMeter.load")
             print(self)
 
-        if 'sample_period' in kwargs:
+        if kwargs.get('sample_period') is None:
+            kwargs.pop('sample_period', None)
+        else:
             kwargs.setdefault('resample', True)
 
         if kwargs.get('resample'):
-- 
2.43.0

