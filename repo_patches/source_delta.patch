From 4ea3cd0ebdd0c1d1adb1593f11a6d09f10315187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 01/73] fix: SMC does not hang or return silently if a thread
 or worker fails

An exception raised in the reader, writer or async worker thread, or by the
function running in the pool, was printed and lost: the constructor either
returned normally with a missing or truncated output node, or waited forever
for a thread that was waiting for the dead one. The output and input file
stayed open. The first exception is now raised by the constructor after all
threads are stopped and the files are closed.
---
 beam_telescope_analysis/tools/smc.py | 39 +++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..2a6f30f 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -153,14 +153,21 @@ class SMC(object):
         self.reader_thread = None
         self.async_worker_thread = None
         self.writer_thread = None
+        self.in_file = None
         self.out_file = None
+        self.exception = None  # first exception raised in one of the threads
         self.out_file_opened = Event()
         self.force_stop = Event()
         self.data_deque = deque()
         self.res_deque = deque()
         self.reader_thread = None
         # compute data
-        self.split_map_combine()
+        try:
+            self.split_map_combine()
+        finally:
+            self._release()
+        if self.exception is not None:
+            raise self.exception
 
     def _reader(self):
         if self.input_filename == self.output_filename:
@@ -174,6 +181,7 @@ class SMC(object):
             except Exception:
                 self.force_stop.set()
                 raise
+        self.in_file = in_file
         try:
             node = in_file.get_node(in_file.root, self.node_name)
         except Exception:
@@ -326,20 +334,43 @@ class SMC(object):
             self.force_stop.set()
             raise
 
+    def _run_thread(self, target):
+        ''' Run target and stop all threads if it fails. The exception is raised by the main thread. '''
+        try:
+            target()
+        except Exception as e:
+            if self.exception is None:
+                self.exception = e
+            self.force_stop.set()
+
+    def _release(self):
+        ''' Stop all threads and release all resources that are still in use (e.g., after an exception). '''
+        self.force_stop.set()
+        for thread in (self.reader_thread, self.async_worker_thread, self.writer_thread):
+            if thread is not None and thread.is_alive():
+                thread.join()
+        if self.pool is not None:
+            self.pool.terminate()
+            self.pool.join()
+            self.pool = None
+        for h5_file in (self.in_file, self.out_file):
+            if h5_file is not None and h5_file.isopen:
+                h5_file.close()
+
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
 
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.writer_thread = Thread(target=self._run_thread, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run_thread, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run_thread, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
-- 
2.43.0


From ab1302d2654bf85fe777dc9d0c77cf3f7b47c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 02/73] fix: SMC histograms with more than one dimension and
 varying shape

ndarray.resize() reinterprets the flat memory, thus all entries of a
multidimensional histogram were moved to wrong bins if the shapes of
the histograms of two chunks were different.
---
 beam_telescope_analysis/tools/smc.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 2a6f30f..c31c682 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -298,11 +298,10 @@ class SMC(object):
                 else:
                     # Check if array needs to be resized
                     new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    # Do not use resize(), it does not preserve the indices of multidimensional arrays
+                    hists[i] = np.pad(hists[i], [(0, n - m) for n, m in zip(new_shape, hists[i].shape)], mode='constant')
+                    # Add array to result
+                    hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
-- 
2.43.0


From 0d30657a3e8bd2859bb4e351a92015e9c3b786e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 03/73] fix: SMC creates output nodes for empty input tables

With an empty input table there was no chunk to process, and the writer thread
failed with a NameError. No output node was created.
---
 beam_telescope_analysis/tools/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index c31c682..a46e402 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -188,6 +188,8 @@ class SMC(object):
             self.force_stop.set()
             raise
         gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
+        if self.n_rows == 0:  # process empty table in order to create the output nodes
+            gen_data = iter([(node.read(), 0)])
         while not self.force_stop.wait(0.01):
             try:
                 try:
-- 
2.43.0


From 7c704ffe2b4ab14cbb7874171f90a4bab14788c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 04/73] fix: SMC with a single core takes None returned by func
 as end of data

The remaining data was dropped without an error, or the writer thread was gone
and the async worker thread was waiting forever for it.
---
 beam_telescope_analysis/tools/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index a46e402..7b18878 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -222,6 +222,8 @@ class SMC(object):
                 pass
             if self.n_cores == 1:
                 res = self.func(data, **self.func_kwargs)
+                if res is None:  # None marks the end of the data
+                    raise RuntimeError('Return value of "func" must be numpy.ndarray')
             else:
                 res = apply_async(
                     pool=self.pool,
-- 
2.43.0


From 06079ad622d9d18fcbc005bbc6f8aaf9ae6cd862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 05/73] fix: SMC can be repeated on the same file after a
 failed run

The temporary node of a failed run in mode r+ was never removed, each further
run on this file failed with a NodeError.
---
 beam_telescope_analysis/tools/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 7b18878..c8b35f2 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -284,6 +284,8 @@ class SMC(object):
                             curr_node_desc['description'] = res_data[i].dtype
                         # create temporary node in case input and output node are the same
                         curr_node_desc["name"] = curr_node_desc["name"] + "_tmp"
+                        if curr_node_desc["name"] in self.out_file.root:  # left over from a failed run
+                            self.out_file.remove_node(self.out_file.root, name=curr_node_desc["name"])
                         table = self.out_file.create_table(
                             where=self.out_file.root,
                             **curr_node_desc)
-- 
2.43.0


From 1a965c7599aacda05e3eca851fdf77d418f6b6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 06/73] fix: data_aligned_at_events loses last event with
 try_speedup when stop event exists

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..f8a98b5 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -592,7 +592,7 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
             else:
                 if last_event_in_chunk >= stop_event_number:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], stop_event_number, side='left')
-                elif current_stop_index == table_max_rows:  # this will also add the last event of the table
+                elif current_stop_index == table_max_rows or (stop_index_known and current_stop_index == stop_index):  # this will also add the last event of the table or the last event before stop_event_number
                     chunk_stop_index = array_chunk.shape[0]
                 else:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], last_event_in_chunk, side='left')
-- 
2.43.0


From 6a928d812f696f49aa4132984827605c57aff503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 07/73] fix: seed position of clusters is not truncated to
 unsigned integer

---
 beam_telescope_analysis/hit_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..6f46414 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -993,8 +993,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
             ('n_hits', '<u4'),
             ('charge', '<f4'),
             ('frame', '<u2'),
-            ('seed_x', '<u2'),
-            ('seed_y', '<u2'),
+            ('seed_x', '<f8'),
+            ('seed_y', '<f8'),
             ('mean_x', '<f8'),
             ('mean_y', '<f8')])
     else:
-- 
2.43.0


From ce5045d9c1e0088f6593fa634b45f399796f3457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 08/73] fix: cluster local positions if hit file provides hit
 indices as well

---
 beam_telescope_analysis/hit_analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f46414..935792c 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1079,8 +1079,13 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 noisy_pixels=noisy_pixels,
                 disabled_pixels=disabled_pixels)
         else:
+            if copy_hit_indices:
+                # the clusterizer must not take the hit indices for the positions
+                clusterizer_hits = hits[[name for name in hits.dtype.names if name not in ('column', 'row')]]
+            else:
+                clusterizer_hits = hits
             cluster_hits, clusters = clusterizer.cluster_hits(
-                hits=hits,
+                hits=clusterizer_hits,
                 noisy_pixels=noisy_pixels,
                 disabled_pixels=disabled_pixels)
         if copy_hit_indices:
-- 
2.43.0


From 52db0a5f2732321ad88241563812ff5331b97e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 09/73] fix: clustering on a single core does not overwrite
 clusters of the previous chunk

---
 beam_telescope_analysis/hit_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 935792c..ddbdb88 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1099,7 +1099,9 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 else:
                     new_cluster_hits[name] = cluster_hits[name]
             cluster_hits = new_cluster_hits
-        return cluster_hits, clusters  # return hits array with additional columns for cluster ID, and cluster array
+        # return hits array with additional columns for cluster ID, and cluster array
+        # copies are needed since the clusterizer is using the same buffers for the next chunk
+        return cluster_hits.copy(), clusters.copy()
 
     smc.SMC(
         input_filename=input_hit_file,
-- 
2.43.0


From a8982b53e4ec1271be98d4c99eb94ef1f8fab9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 10/73] fix: cluster hit files without any cluster

---
 beam_telescope_analysis/hit_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index ddbdb88..b182253 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1122,7 +1122,7 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
     # Calculate cluster size histogram
     def cluster_size_hist_func(clusters):
         n_hits = clusters['n_hits']
-        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits) + 1,))
+        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits, initial=0) + 1,))
         return hist
 
     smc.SMC(
-- 
2.43.0


From d1edcce4befb7f44a95a6a59484bab491baa20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 11/73] fix: event delta of the second chunk if the first chunk
 ends with event number 0

---
 beam_telescope_analysis/hit_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index b182253..22221d4 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -384,7 +384,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
-                if last_event:
+                if last_event is not None:
                     event_delta = np.concatenate((np.array([event_numbers[0] - last_event]),
                                                   event_delta))
                 last_event = event_numbers[-1]
-- 
2.43.0


From ac6ea80a57e8ea2d53baf5a59e65abaf871174e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 12/73] fix: check_file reads the position columns of clusters

---
 beam_telescope_analysis/hit_analysis.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 22221d4..49acced 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -350,17 +350,19 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
                 if use_positions is False:
-                    if np.any(data_chunk['column'] < 1) or np.any(data_chunk['row'] < 1):
+                    column, row = ('mean_column', 'mean_row') if use_clusters else ('column', 'row')
+                    if np.any(data_chunk[column] < 1) or np.any(data_chunk[row] < 1):
                         raise RuntimeError('The column/row index does not start at 1!')
-                    if np.any(data_chunk['column'] > dut.n_columns) or np.any(data_chunk['row'] > dut.n_rows):
+                    if np.any(data_chunk[column] > dut.n_columns) or np.any(data_chunk[row] > dut.n_rows):
                         raise RuntimeError('The column/row index exceeds the number of pixels (max. %s/%s)!' % (dut.n_columns, dut.n_rows))
                 if use_positions is True:
+                    x, y = ('mean_x', 'mean_y') if use_clusters else ('x', 'y')
                     x_extent = dut.x_extent()
                     y_extent = dut.y_extent()
-                    if np.any(data_chunk['x'] < x_extent[0]) or np.any(data_chunk['x'] > x_extent[1]):
-                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.x_extent[0], dut.x_extent[1]))
-                    if np.any(data_chunk['y'] < y_extent[0]) or np.any(data_chunk['y'] > y_extent[1]):
-                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.y_extent[0], dut.y_extent[1]))
+                    if np.any(data_chunk[x] < x_extent[0]) or np.any(data_chunk[x] > x_extent[1]):
+                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (x_extent[0], x_extent[1]))
+                    if np.any(data_chunk[y] < y_extent[0]) or np.any(data_chunk[y] > y_extent[1]):
+                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (y_extent[0], y_extent[1]))
 
                 if use_clusters:
                     if use_positions:
-- 
2.43.0


From 6005cc561b97386c76a19bb5eee4004f0c914096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 13/73] fix: check_file correlates hits of consecutive events
 across chunks

---
 beam_telescope_analysis/hit_analysis.py         | 15 +++++++++++++--
 beam_telescope_analysis/tools/analysis_utils.py |  6 ++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 49acced..7e11e51 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -346,6 +346,10 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     fletcher32=False))
 
             last_event_number = 0
+            # Hits of the previous chunk that are needed for the correlation
+            range_event_numbers = np.array([], dtype=np.int64)
+            range_x_indices = np.array([], dtype=np.uint32)
+            range_y_indices = np.array([], dtype=np.uint32)
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
@@ -376,13 +380,20 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                         x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk['column'], row=data_chunk['row'])
                 x_indices = ((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32)
                 y_indices = ((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32)
+                # Prepend hits of the previous chunk that are within the event range
+                correlate_event_numbers = np.r_[range_event_numbers, data_chunk['event_number']]
+                x_indices = np.r_[range_x_indices, x_indices]
+                y_indices = np.r_[range_y_indices, y_indices]
                 analysis_utils.correlate_hits_on_event_range(
-                    event_numbers=data_chunk['event_number'],
+                    event_numbers=correlate_event_numbers,
                     x_indices=x_indices,
                     y_indices=y_indices,
                     x_corr_hist=x_correlation,
                     y_corr_hist=y_correlation,
-                    event_range=event_range)
+                    event_range=event_range,
+                    start_index=range_event_numbers.shape[0])
+                select = correlate_event_numbers > correlate_event_numbers[-1] - event_range
+                range_event_numbers, range_x_indices, range_y_indices = correlate_event_numbers[select], x_indices[select], y_indices[select]
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index f8a98b5..5625bc5 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -145,7 +145,7 @@ def correlate_position_on_event_number(ref_event_numbers, dut_event_numbers, ref
 
 
 @njit(locals={'curr_event_number': numba.int64, 'last_event_number': numba.int64, 'curr_index': numba.int64, 'corr_index': numba.int64})
-def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range):
+def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range, start_index=0):
     """Correlating the hit indices of different events in a certain range.
     For unambiguous event building no correlation should be seen.
 
@@ -165,10 +165,12 @@ def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hi
     event_range : uint
         The number of events to use for correlation,
         e.g., event_range = 1 correlates to predecessing event hits with the current event hits.
+    start_index : uint
+        Index of the first hit that is correlated to the hits of its predecessing events.
     """
     last_event_number = -1
     # Loop over hits, outer loop
-    for curr_index in range(event_numbers.shape[0]):
+    for curr_index in range(start_index, event_numbers.shape[0]):
         curr_event_number = event_numbers[curr_index]
         # calculate new start index for inner loop if new event occurs
         if curr_event_number != last_event_number:
-- 
2.43.0


From 832406998c7d057f979ee35bc615cb5fcda18c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 14/73] fix: check_file fails on decreasing event numbers for
 every chunk size

---
 beam_telescope_analysis/hit_analysis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 7e11e51..25af76c 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -346,6 +346,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     fletcher32=False))
 
             last_event_number = 0
+            n_rows = 0
             # Hits of the previous chunk that are needed for the correlation
             range_event_numbers = np.array([], dtype=np.int64)
             range_x_indices = np.array([], dtype=np.uint32)
@@ -405,6 +406,10 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 out_dE.append(event_delta)
                 out_E.append(event_numbers)
                 last_event_number = event_numbers[-1]
+                n_rows += data_chunk.shape[0]
+
+            if n_rows != node.nrows:  # reading is aborted if event numbers are not sorted
+                raise RuntimeError('The event number does not always increase.')
 
             out_col = out_file_h5.create_carray(
                 where=out_file_h5.root,
-- 
2.43.0


From edd057ddeec2816e9f211d7ec6dc4107097f718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 15/73] fix: convert_coordinates with given output_hit_file

---
 beam_telescope_analysis/hit_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 25af76c..45314e1 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -109,6 +109,8 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
 
     if output_hit_file is None:
         output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+    else:
+        output_file = output_hit_file
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-- 
2.43.0


From 8e5d199b5bd0106b04f99676a17d6ca80f2f6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 16/73] fix: correlate releases its worker pool if it fails

---
 beam_telescope_analysis/hit_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 45314e1..d9badc1 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1366,7 +1366,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                 # Store the loop indices for speed up
                 start_indices.append(None)
 
-            with tb.open_file(input_files[ref_file_index], mode='r') as in_file_h5:  # Open reference hit/cluster file
+            with tb.open_file(input_files[ref_file_index], mode='r') as in_file_h5, Pool() as pool:  # Open reference hit/cluster file
                 # Check for whether hits or clusters are used
                 try:
                     ref_node = in_file_h5.root.Clusters
@@ -1382,7 +1382,6 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
 
                 pbar = tqdm(total=ref_node.shape[0], ncols=80)
 
-                pool = Pool()
                 # Loop over the hits/clusters of reference DUT
                 for ref_data_chunk, ref_read_index in analysis_utils.data_aligned_at_events(ref_node, chunk_size=chunk_size):
                     actual_event_numbers = ref_data_chunk['event_number']
-- 
2.43.0


From ed14a4850441a33ae79531e8d4c9d4c82f1afa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 17/73] fix: merge_cluster_data keeps events after the last
 event of DUT0

---
 beam_telescope_analysis/hit_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index d9badc1..1856c37 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1643,9 +1643,11 @@ def merge_cluster_data(telescope_configuration, input_cluster_files, output_merg
 
                 # First loop: calculate the minimum event number indices needed to merge all cluster from all files to this event number index
                 common_event_numbers = actual_event_numbers
+                # The last chunk includes all remaining events of the other DUTs
+                stop_event_number = None if start_indices_data_loop[0] == in_file_h5.root.Clusters.nrows else actual_event_numbers[-1] + 1
                 for dut_index, cluster_file in enumerate(input_cluster_files[1:], start=1):  # Loop over the other cluster files
                     with tb.open_file(cluster_file, mode='r') as actual_in_file_h5:  # Open DUT0 cluster file
-                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_event_numbers[-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
+                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=stop_event_number, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
                             common_event_numbers = analysis_utils.get_max_events_in_both_arrays(common_event_numbers, actual_cluster['event_number'])
                 # array with merged DUT data
                 merged_cluster_array = np.zeros(shape=(common_event_numbers.shape[0],), dtype=description)
-- 
2.43.0


From f345a0b3fd0ad9b7d3d5e009475b6d3cdb82288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 18/73] fix: find_tracks assigns columns of more than 10 DUTs
 to the right DUT

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..f441de6 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -287,7 +287,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('_dut_%d' % dut_index):
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From 16acb7fe4ca99967dde46819791c9e9725d790ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 19/73] fix: find_tracks and fit_tracks fail if max_events is
 reached before the last chunk

---
 beam_telescope_analysis/track_analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index f441de6..1d1f35d 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -213,6 +213,8 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                         select_n_events = max_events - total_n_events_stored
                     elif total_n_events_stored == 0:  # first chunk
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                    elif total_n_events_stored == max_events:  # maximum number of events reached
+                        select_n_events = 0
                     else:
                         # calculate correction of number of selected events
                         correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
@@ -895,6 +897,8 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                             select_n_events = max_events - total_n_events_stored
                         elif total_n_events_stored == 0:  # first chunk
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                        elif total_n_events_stored == max_events:  # maximum number of events reached
+                            select_n_events = 0
                         else:
                             # calculate correction of number of selected events
                             correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-- 
2.43.0


From 6252f9bc7171469871f5dc259061f10159cf11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 20/73] fix: find_tracks without extrapolation DUTs

---
 beam_telescope_analysis/track_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 1d1f35d..10f95ac 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 import tables as tb
 import numpy as np
-from numba import njit
+from numba import njit, types
 from numba.typed import List
 from scipy.stats import gaussian_kde
 from scipy.stats import chi2
@@ -75,7 +75,8 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
         raise ValueError("Invalid value for select_extrapolation_duts")
 
     # Create typed list for numba (see http://numba.pydata.org/numba-doc/latest/reference/deprecation.html#deprecation-of-reflection-for-list-and-set-types)
-    typed_select_extrapolation_duts = List()
+    # The type is given since it cannot be inferred from an empty list
+    typed_select_extrapolation_duts = List.empty_list(types.int64)
     [typed_select_extrapolation_duts.append(x) for x in select_extrapolation_duts]
     select_extrapolation_duts = typed_select_extrapolation_duts
 
-- 
2.43.0


From 7efd8a7d7583958a8b009186c8a75000169494b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 21/73] fix: fit_tracks with keep_data

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 10f95ac..08bc2d1 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1403,9 +1403,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From eb6034daf94163f72905996e7b39ec283dfd4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:03 +0000
Subject: [PATCH 22/73] fix: fit_tracks releases its worker pool if it fails

---
 beam_telescope_analysis/track_analysis.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 08bc2d1..ac74054 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -768,8 +768,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
         raise ValueError("Parameter min_track_hits has the wrong length.")
 
     fitted_duts = []
-    pool = Pool()
-    with tb.open_file(input_track_candidates_file, mode='r') as in_file_h5:
+    with tb.open_file(input_track_candidates_file, mode='r') as in_file_h5, Pool() as pool:
         with tb.open_file(output_tracks_file, mode='w') as out_file_h5:
             for fit_dut_index, actual_fit_dut in enumerate(select_duts):  # Loop over the DUTs where tracks shall be fitted for
                 # Test whether other DUTs have identical tracks
@@ -1025,9 +1024,6 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                 except ValueError:
                     logging.error('could not plot fit statistics')
 
-    pool.close()
-    pool.join()
-
     if output_pdf is not None:
         output_pdf.close()
 
-- 
2.43.0


From 170fb5c58e63327a7a9e533229adae7fc675060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 23/73] fix: fit_tracks keeps candidates and tables of chunks
 without good tracks

---
 beam_telescope_analysis/track_analysis.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index ac74054..35e2e9c 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -889,8 +889,6 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
 
                     unique_events = np.unique(track_candidates_chunk["event_number"][select_tracks_for_storage])
                     n_events_chunk = unique_events.shape[0]
-                    if n_events_chunk == 0:
-                        continue
 
                     if max_events:
                         if total_n_tracks == index_chunk:  # last chunk, adding all remaining events
-- 
2.43.0


From 8e417d041e8f45c328af8bdd1465093fc02bde40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 24/73] fix: Kalman filter with planes that are not ordered in
 z

---
 beam_telescope_analysis/tools/kalman.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..e2d91e9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,8 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        first_dut_index = z_sorted_dut_indices[0]
+        track_seed = reference_states[:, first_dut_index, :] + filtered_states_b[:, first_dut_index, :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +843,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +852,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From e50a506ed254339fcd33fe2b44df5d28ad6a395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 25/73] fix: scattering planes in Kalman track fit

---
 beam_telescope_analysis/track_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 35e2e9c..2947b75 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1614,6 +1614,7 @@ def _fit_tracks_kalman_loop(track_hits, telescope, select_fit_duts, beam_energy,
 
     if scattering_planes:
         track_hits = np.append(arr=track_hits, values=np.full((track_hits.shape[0], len(scattering_planes), track_hits.shape[2]), fill_value=np.nan, dtype=np.float64), axis=1)
+        alpha = np.append(arr=alpha, values=np.ones(shape=len(scattering_planes)))
 
     chunk_size = track_hits.shape[0]
     n_duts = len(all_dut_planes)
-- 
2.43.0


From 5fa7b8db39eb1541df4f7294f57d7c747908010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 26/73] fix: scattering plane in front of the first DUT

---
 beam_telescope_analysis/telescope/dut.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/telescope/dut.py b/beam_telescope_analysis/telescope/dut.py
index ff59691..03cb5cc 100644
--- a/beam_telescope_analysis/telescope/dut.py
+++ b/beam_telescope_analysis/telescope/dut.py
@@ -577,6 +577,10 @@ class ScatteringPlane(Dut):
     def __init__(self, name, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma, x_limit=None, y_limit=None, material_budget=None, intrinsic_resolution=None):
         super(ScatteringPlane, self).__init__(name=name, translation_x=translation_x, translation_y=translation_y, translation_z=translation_z, rotation_alpha=rotation_alpha, rotation_beta=rotation_beta, rotation_gamma=rotation_gamma, x_limit=x_limit, y_limit=y_limit, material_budget=material_budget, intrinsic_resolution=intrinsic_resolution)
 
+    # the coordinate transformations do not depend on the pixel geometry
+    local_to_global_position = RectangularPixelDut.local_to_global_position
+    global_to_local_position = RectangularPixelDut.global_to_local_position
+
 
 class Diamond3DpCVD(FEI4):
     dut_attributes = ["name", "translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma", "x_limit", "y_limit", "material_budget", "intrinsic_resolution", "sensor_position"]
-- 
2.43.0


From 9b9c6fecfbdb4dc0285acbb8d4a8f5dfacda3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 27/73] fix: select_tracks fails with ZeroDivisionError if no
 track passes a selection

---
 beam_telescope_analysis/tools/data_selection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..5d29c57 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -473,11 +473,15 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (percentage(n_tracks_query, total_n_tracks), percentage(n_tracks_hit_mask, total_n_tracks), percentage(n_tracks_quality_mask, n_tracks_hit_mask), percentage(n_tracks_iso_track_mask, n_tracks_quality_mask), percentage(n_tracks_iso_hit_mask, n_tracks_iso_track_mask), percentage(n_tracks_query, n_tracks_iso_hit_mask)))
 
     return output_tracks_file
 
 
+def percentage(n, total):
+    return 100.0 * n / total if total else 0.0
+
+
 def table_where(arr, query_str):
     for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
         exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
-- 
2.43.0


From 4fc88473101e65728e929c139e8aa2f9301b07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 28/73] fix: query strings of select_tracks

---
 beam_telescope_analysis/tools/data_selection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 5d29c57..d51f9fe 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -483,7 +482,7 @@ def percentage(n, total):
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
+    # expose columns as variables; not a copy, this is just a reference
+    variables = {name: arr[name] for name in arr.dtype.names}
 
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict=variables, global_dict={}, casting="safe")]
-- 
2.43.0


From e88bb936751e4cae13cd6f5de630a82f88bca6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 29/73] fix: combine_files with empty tables

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index d51f9fe..39cac8e 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -99,7 +99,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows > 0:  # empty tables have no event number
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From d7588e20d859f8ca014dbaf440290a2e2a808d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 30/73] fix: convert_coordinates truncates local positions to
 the wrong pixel

---
 beam_telescope_analysis/hit_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 1856c37..e858a27 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -166,11 +166,13 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         column=data_chunk['column'],
                         row=data_chunk['row'])
                 else:
-                    out_data['column'], out_data['row'] = dut.local_position_to_index(
+                    column, row = dut.local_position_to_index(
                         x=data_chunk['x'],
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
+                    # round to the pixel the position is in, do not truncate
+                    out_data['column'], out_data['row'] = np.rint(column), np.rint(row)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From 837bdc21e1403aab13ce2679309a077ec55fea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 31/73] fix: apply_alignment fails with files that contain the
 arguments of previous steps

---
 beam_telescope_analysis/dut_alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..6ad52ec 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -154,6 +154,8 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
     with tb.open_file(input_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
             for node in in_file_h5.root:  # Loop over potential hit tables in data file
+                if isinstance(node, tb.Group):  # e.g., arguments stored by save_arguments()
+                    continue
                 logging.info('== Apply alignment to node %s ==', node.name)
                 hits_aligned_table = out_file_h5.create_table(
                     where=out_file_h5.root,
-- 
2.43.0


From 1a7953320bc4599c4ea1c332c332777069f1d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 32/73] fix: apply_alignment transforms tracks of DUT10 and
 higher with alignment of DUT1

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 6ad52ec..b01490c 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -103,7 +103,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
 
         if "Tracks" in node.name:
             format_strings = ['offset_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['offset_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
@@ -119,7 +119,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
                         rotation_gamma=dut.rotation_gamma)
 
             format_strings = ['slope_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['slope_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
-- 
2.43.0


From 40cb0f0f607707b3407a1261cb5591c426bda488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 33/73] fix: files belong to selected DUTs in the order of
 select_duts

---
 beam_telescope_analysis/hit_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index e858a27..c4154c3 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -66,7 +66,7 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_hit_files is not None and len(select_duts) != len(output_hit_files):
@@ -219,7 +219,7 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_check_files is not None and len(select_duts) != len(output_check_files):
@@ -492,7 +492,7 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_mask_files is not None and len(select_duts) != len(output_mask_files):
@@ -732,7 +732,7 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if input_mask_files is not None and len(select_duts) != len(input_mask_files):
-- 
2.43.0


From faa214318f2cad2ea743805d6f4b68d69c93c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 34/73] fix: select_duts accepts index after the last DUT and
 ignores its file

---
 beam_telescope_analysis/hit_analysis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index c4154c3..972c720 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -62,7 +62,7 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
@@ -215,7 +215,7 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
@@ -488,7 +488,7 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
@@ -728,7 +728,7 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
@@ -1303,7 +1303,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Correlating %d DUTs ===', len(select_duts))
 
-- 
2.43.0


From 8476b51a2cb5cc33cdc5ce0c61e9d2fb772776ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 35/73] fix: calculate residuals if chunks of tracks have no
 residuals

The binning was calculated from the first chunk and the statistics from every
chunk, both failed if no track of the chunk had a hit inside the limits.
---
 beam_telescope_analysis/result_analysis.py | 27 +++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index faf38fb..a69e09b 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -23,6 +23,24 @@ from beam_telescope_analysis.tools import analysis_utils
 from beam_telescope_analysis.tools.storage_utils import save_arguments
 
 
+def join_chunks(chunks, is_usable):
+    ''' Joins each chunk that is not usable on its own (e.g., no track has a hit) with its neighbors, so that no data is lost and all chunks are usable.
+
+    Yields nothing if there is no usable chunk.
+    '''
+    joined = None
+    for chunk in chunks:
+        if joined is None:
+            joined = chunk
+        elif is_usable(joined) and is_usable(chunk):
+            yield joined
+            joined = chunk
+        else:
+            joined = np.concatenate([joined, chunk])
+    if joined is not None and is_usable(joined):
+        yield joined
+
+
 @save_arguments
 def calculate_residuals(telescope_configuration, input_tracks_file, select_duts, output_residuals_file=None, nbins_per_pixel=None, npixels_per_bin=None, use_limits=True, plot=True, chunk_size=1000000):
     '''Takes the tracks and calculates residuals for selected DUTs in col, row direction.
@@ -78,8 +96,15 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                     limit_x_local = None
                     limit_y_local = None
 
+                def has_residuals(tracks):
+                    selection = np.logical_and(~np.isnan(tracks['x_dut_%d' % actual_dut_index]), ~np.isnan(tracks['track_chi2']))
+                    for limit, hit in ((limit_x_local, tracks['x_dut_%d' % actual_dut_index]), (limit_y_local, tracks['y_dut_%d' % actual_dut_index])):
+                        if limit is not None:
+                            selection &= ~(hit < limit[0]) & ~(hit > limit[1])
+                    return np.any(selection)
+
                 initialize = True  # initialize the histograms
-                for tracks_chunk, _ in analysis_utils.data_aligned_at_events(node, chunk_size=chunk_size):
+                for tracks_chunk in join_chunks((chunk for chunk, _ in analysis_utils.data_aligned_at_events(node, chunk_size=chunk_size)), has_residuals):
                     # Select data with hits and tracks
                     selection = np.logical_and(~np.isnan(tracks_chunk['x_dut_%d' % actual_dut_index]), ~np.isnan(tracks_chunk['track_chi2']))
                     tracks_chunk = tracks_chunk[selection]  # Take only tracks where actual dut has a hit, otherwise residual wrong
-- 
2.43.0


From 2dfd67d487ee2a0c53378d57d3dbd0793e779786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 36/73] fix: calculate purity

The purity plots were called without the telescope, the log message failed,
the purity was truncated to integers and a single bin size or range (as
documented) was taken apart.
---
 beam_telescope_analysis/result_analysis.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index a69e09b..302236e 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2157,6 +2157,14 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
     else:
         output_pdf = None
 
+    # A single tuple is used for all DUTs
+    if isinstance(bin_size, Iterable) and not isinstance(bin_size[0], Iterable):
+        bin_size = [bin_size]
+    if local_x_range is not None and not any(item is None or isinstance(item, Iterable) for item in local_x_range):
+        local_x_range = [local_x_range]
+    if local_y_range is not None and not any(item is None or isinstance(item, Iterable) for item in local_y_range):
+        local_y_range = [local_y_range]
+
     purities = []
     purities_sensor_mean = []
     pure_hits = []
@@ -2233,12 +2241,12 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     # Calculate purity
                     pure_hits_local = hits_local[distance_local < cut_distance]
 
-                    if not np.any(pure_hits_local):
+                    if pure_hits_local.shape[0] == 0:
                         logging.warning('No pure hits in DUT%d, cannot calculate purity', actual_dut_index)
                         continue
                     total_pure_hit_hist += (np.histogram2d(pure_hits_local[:, 0], pure_hits_local[:, 1], bins=(n_bin_x, n_bin_y), range=[actual_dut.x_extent(), actual_dut.y_extent()])[0]).astype(np.uint32)
 
-                purity = np.zeros_like(total_hit_hist)
+                purity = np.zeros_like(total_hit_hist, dtype=np.float64)
                 purity[total_hit_hist != 0] = total_pure_hit_hist[total_hit_hist != 0].astype(np.float64) / total_hit_hist[total_hit_hist != 0].astype(np.float64) * 100.0
                 purity = np.ma.array(purity, mask=total_hit_hist < minimum_hit_density)
                 # calculate sensor purity by weighting each pixel purity with total number of hits within the pixel
@@ -2248,6 +2256,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     raise RuntimeError('No pure hit for DUT%d, consider changing cut values or check track building!', actual_dut_index)
 
                 plot_utils.purity_plots(
+                    telescope,
                     total_pure_hit_hist,
                     total_hit_hist, purity,
                     purity_sensor,
@@ -2257,7 +2266,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     cut_distance=cut_distance,
                     output_pdf=output_pdf)
 
-                logging.info('Purity =  %1.4f +- %1.4f%%' % np.ma.mean(purity), np.ma.std(purity))
+                logging.info('Purity =  %1.4f +- %1.4f%%' % (np.ma.mean(purity), np.ma.std(purity)))
                 purities.append(np.ma.mean(purity))
                 purities_sensor_mean.append(np.ma.mean(purity_sensor))
 
-- 
2.43.0


From a9beb199bd2b4bf3af2bd972202ca686568c456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 37/73] fix: histogram track angles of few or identical tracks

The histogram range was calculated from the first chunk, which failed without
any fitted track or with identical angles, and so did fits with less bins than
parameters.
---
 beam_telescope_analysis/result_analysis.py | 27 ++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 302236e..49eba61 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2400,7 +2400,7 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
 
                 initialize = True
                 # only store track slopes of selected DUTs
-                for tracks_chunk, _ in analysis_utils.data_aligned_at_events(node, chunk_size=chunk_size):
+                for tracks_chunk in join_chunks((chunk for chunk, _ in analysis_utils.data_aligned_at_events(node, chunk_size=chunk_size)), lambda tracks: np.any(np.isfinite(tracks['slope_z']))):
                     track_slopes_local = np.column_stack([
                         tracks_chunk['slope_x'],
                         tracks_chunk['slope_y'],
@@ -2437,9 +2437,9 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
                         global_alpha_std = np.nanstd(alpha_angles_global)
                         global_beta_mean = np.nanmean(beta_angles_global)
                         global_beta_std = np.nanstd(beta_angles_global)
-                        total_angle_global_hist, total_angle_global_hist_edges = np.histogram(total_angles_global, bins=n_bins, range=(global_total_mean - 5 * global_total_std, global_total_mean + 5 * global_total_std))
-                        alpha_angle_global_hist, alpha_angle_global_hist_edges = np.histogram(alpha_angles_global, bins=n_bins, range=(global_alpha_mean - 5 * global_alpha_std, global_alpha_mean + 5 * global_alpha_std))
-                        beta_angle_global_hist, beta_angle_global_hist_edges = np.histogram(beta_angles_global, bins=n_bins, range=(global_beta_mean - 5 * global_beta_std, global_beta_mean + 5 * global_beta_std))
+                        total_angle_global_hist, total_angle_global_hist_edges = np.histogram(total_angles_global, bins=n_bins, range=get_histogram_range(global_total_mean, global_total_std))
+                        alpha_angle_global_hist, alpha_angle_global_hist_edges = np.histogram(alpha_angles_global, bins=n_bins, range=get_histogram_range(global_alpha_mean, global_alpha_std))
+                        beta_angle_global_hist, beta_angle_global_hist_edges = np.histogram(beta_angles_global, bins=n_bins, range=get_histogram_range(global_beta_mean, global_beta_std))
                         if index != 0:
                             local_total_mean = np.nanmean(total_angles_local)
                             local_total_std = np.nanstd(total_angles_local)
@@ -2447,9 +2447,9 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
                             local_alpha_std = np.nanstd(alpha_angles_local)
                             local_beta_mean = np.nanmean(beta_angles_local)
                             local_beta_std = np.nanstd(beta_angles_local)
-                            total_angle_local_hist, total_angle_local_hist_edges = np.histogram(total_angles_local, bins=n_bins, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
-                            alpha_angle_local_hist, alpha_angle_local_hist_edges = np.histogram(alpha_angles_local, bins=n_bins, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
-                            beta_angle_local_hist, beta_angle_local_hist_edges = np.histogram(beta_angles_local, bins=n_bins, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
+                            total_angle_local_hist, total_angle_local_hist_edges = np.histogram(total_angles_local, bins=n_bins, range=get_histogram_range(local_total_mean, local_total_std))
+                            alpha_angle_local_hist, alpha_angle_local_hist_edges = np.histogram(alpha_angles_local, bins=n_bins, range=get_histogram_range(local_alpha_mean, local_alpha_std))
+                            beta_angle_local_hist, beta_angle_local_hist_edges = np.histogram(beta_angles_local, bins=n_bins, range=get_histogram_range(local_beta_mean, local_beta_std))
                         initialize = False
                     else:
                         total_angle_global_hist += np.histogram(total_angles_global, bins=total_angle_global_hist_edges)[0]
@@ -2460,6 +2460,9 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
                             alpha_angle_local_hist += np.histogram(alpha_angles_local, bins=alpha_angle_local_hist_edges)[0]
                             beta_angle_local_hist += np.histogram(beta_angles_local, bins=beta_angle_local_hist_edges)[0]
 
+                if initialize:
+                    raise RuntimeError("No tracks were processed.")
+
                 # write results
                 track_angle_total_global = out_file_h5.create_carray(
                     where=out_file_h5.root,
@@ -2551,12 +2554,12 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
                     rms = analysis_utils.get_rms_from_histogram(hist, bin_center)
                     try:
                         fit, _ = curve_fit(analysis_utils.gauss, bin_center, hist, p0=[np.amax(hist), mean, rms])
-                    except RuntimeError:
+                    except (RuntimeError, TypeError):
                         hilb = hilbert(hist)
                         hilb = np.absolute(hilb)
                         try:
                             fit, _ = curve_fit(analysis_utils.gauss, bin_center, hilb, p0=[np.amax(hist), mean, rms])
-                        except RuntimeError:
+                        except (RuntimeError, TypeError):
                             fit = [np.nan, np.nan, np.nan]
 
                     # store the data
@@ -2572,6 +2575,12 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
     return output_track_angle_file
 
 
+def get_histogram_range(mean, std):
+    # Angles that are all the same can not be distinguished from rounding errors
+    width = 5 * std if std > 1e-12 else 0.5
+    return mean - width, mean + width
+
+
 def get_angles(slopes, xz_plane_normal, yz_plane_normal, dut_plane_normal):
     # Make z-slope pointing into positive z-direction (z-slope is reveresed when going from local into global coord. system) and normalize track slopes to 1.
     slopes[:, 2] = np.abs(slopes[:, 2])
-- 
2.43.0


From 88f4dbd234f4a8a8b35bd713fb2d26027984ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 38/73] fix: calculate residuals versus position if all tracks
 have the same position

---
 beam_telescope_analysis/result_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 49eba61..65f3d7a 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -207,6 +207,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
 
                         if npixels_per_bin is not None:
                             min_intersection, max_intersection = np.min(intersection_x_local), np.max(intersection_x_local)
+                            max_intersection = max(max_intersection, min_intersection + 0.5 * npixels_per_bin * actual_dut.column_size)  # at least one bin
                             nbins = np.arange(min_intersection, max_intersection + npixels_per_bin * actual_dut.column_size, npixels_per_bin * actual_dut.column_size)
                         else:
                             nbins = "sturges"
@@ -230,6 +231,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
 
                         if npixels_per_bin is not None:
                             min_intersection, max_intersection = np.min(intersection_y_local), np.max(intersection_y_local)
+                            max_intersection = max(max_intersection, min_intersection + 0.5 * npixels_per_bin * actual_dut.row_size)  # at least one bin
                             nbins = np.arange(min_intersection, max_intersection + npixels_per_bin * actual_dut.row_size, npixels_per_bin * actual_dut.row_size)
                         else:
                             nbins = "sturges"
-- 
2.43.0


From 21faca37b0c4f587ce298c5c6b4d6ed8c191d8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 39/73] fix: Voronoi regions of different sizes with current
 numpy

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 5625bc5..b03066a 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1140,7 +1140,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     ridge_vertices_with_vertex_inside_sel &= np.all(np.isin(vor_ridge_vertices, vertices_indices_inside), axis=1)
     ridge_vertices_indices_with_vertex_inside = np.where(ridge_vertices_with_vertex_inside_sel)[0]
     # TODO: remove not used vertices and update indices lists
-    return vor.points, np.array(vor.regions)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
+    return vor.points, [vor.regions[index] for index in new_regions_indices], vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
 
 
 def polygon_area(x, y):
-- 
2.43.0


From 1b087b10df68125a0fc55a6c9fd4856d1896b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 40/73] fix: efficiency bins have the requested size, do not
 truncate the number of bins

---
 beam_telescope_analysis/result_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 65f3d7a..533d83c 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -878,8 +878,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     dut_hist_y_size += dut_hist_y_extent_area
                 dut_hist_y_extent = [dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0]
                 hist_extent = [dut_hist_x_extent[0], dut_hist_x_extent[1], dut_hist_y_extent[0], dut_hist_y_extent[1]]
-                hist_2d_x_n_bins = int(dut_hist_x_size / resolution[0])
-                hist_2d_y_n_bins = int(dut_hist_y_size / resolution[1])
+                hist_2d_x_n_bins = int(round(dut_hist_x_size / resolution[0]))
+                hist_2d_y_n_bins = int(round(dut_hist_y_size / resolution[1]))
                 hist_2d_x_edges = np.linspace(dut_hist_x_extent[0], dut_hist_x_extent[1], hist_2d_x_n_bins + 1, endpoint=True)
                 hist_2d_y_edges = np.linspace(dut_hist_y_extent[0], dut_hist_y_extent[1], hist_2d_y_n_bins + 1, endpoint=True)
                 hist_2d_edges = [hist_2d_x_edges, hist_2d_y_edges]
@@ -939,8 +939,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # generate primitive cell of the size of a single pixel
                     dut_in_pixel_hist_x_size = math.ceil(actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
                     dut_in_pixel_hist_y_size = math.ceil(actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                    hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
-                    hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                    hist_in_pixel_x_n_bins = int(round(dut_in_pixel_hist_x_size / in_pixel_resolution[0]))
+                    hist_in_pixel_y_n_bins = int(round(dut_in_pixel_hist_y_size / in_pixel_resolution[1]))
                     hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                     hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                     hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
@@ -1117,12 +1117,12 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         if np.any(in_pixel_intersection_x_local > dut_in_pixel_hist_x_size):
                             resize_in_pixel_hist = True
                             dut_in_pixel_hist_x_size = math.ceil(np.ceil(np.max(in_pixel_intersection_x_local) / actual_dut.column_size) * actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
-                            hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
+                            hist_in_pixel_x_n_bins = int(round(dut_in_pixel_hist_x_size / in_pixel_resolution[0]))
                             hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                         if np.any(in_pixel_intersection_y_local > dut_in_pixel_hist_y_size):
                             resize_in_pixel_hist = True
                             dut_in_pixel_hist_y_size = math.ceil(np.ceil(np.max(in_pixel_intersection_y_local) / actual_dut.row_size) * actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                            hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                            hist_in_pixel_y_n_bins = int(round(dut_in_pixel_hist_y_size / in_pixel_resolution[1]))
                             hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                         if resize_in_pixel_hist:
                             hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
-- 
2.43.0


From 3c4872fecf6994b0575615451c59f4e1b4dad4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 41/73] fix: resolution and cut distance given for one
 direction only

---
 beam_telescope_analysis/result_analysis.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 533d83c..7e9b1d6 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -848,10 +848,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 resolution = resolutions[index]
                 if resolution is None:
                     resolution = actual_dut.pixel_size
-                if resolution[0] is None:
-                    resolution[0] = actual_dut.pixel_size[0]
-                if resolution[1] is None:
-                    resolution[1] = actual_dut.pixel_size[1]
+                resolution = [size if value is None else value for value, size in zip(resolution, actual_dut.pixel_size)]
                 extend_area = extend_areas[index]
 
                 # select cluster shapes for analysis
@@ -893,11 +890,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # Calculate in-pixel histogram properties (bins size and number of bins)
                     in_pixel_resolution = in_pixel_resolutions[index]
                     if in_pixel_resolution is None:
-                        in_pixel_resolution = list(map(min, zip(resolution, [pitch / 10.0 for pitch in actual_dut.pixel_size])))
-                    if in_pixel_resolution[0] is None:
-                        in_pixel_resolution[0] = min(resolution[0], actual_dut.pixel_size[0] / 10.0)
-                    if in_pixel_resolution[1] is None:
-                        in_pixel_resolution[1] = min(resolution[1], actual_dut.pixel_size[1] / 10.0)
+                        in_pixel_resolution = (None, None)
+                    in_pixel_resolution = [min(resolution[i], actual_dut.pixel_size[i] / 10.0) if value is None else value for i, value in enumerate(in_pixel_resolution)]
                     # generate hists for each region
                     efficiency_regions_efficiencies = []
                     efficiency_regions_efficiencies_chunk = []
@@ -1090,11 +1084,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                     cut_distance = cut_distances[index]
                     if cut_distance is None:
-                        cut_distance = (np.inf, np.inf)
-                    if cut_distance[0] is None:
-                        cut_distance[0] = np.inf
-                    if cut_distance[1] is None:
-                        cut_distance[1] = np.inf
+                        cut_distance = (None, None)
+                    cut_distance = [np.inf if value is None else value for value in cut_distance]
 
                     # Select data where distance between the hit and track is smaller than the given value
                     select_valid_hit = np.isfinite(hit_x_local)
-- 
2.43.0


From ca9b153b53467896f6777572da5905bcbb1aff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 42/73] fix: in-pixel hit histogram counts the valid hits, as
 the other in-pixel histograms

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 7e9b1d6..0653699 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1245,7 +1245,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
                                 count_in_pixel_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel hits
-                                count_in_pixel_hits_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_hit_x_local[select_valid_tracks_efficiency_region], y=in_pixel_hit_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
+                                count_in_pixel_hits_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_hit_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_hit_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel x residuals
                                 stat_in_pixel_x_residuals_2d_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=x_residuals[select_valid_tracks_efficiency_region & select_valid_hit], statistic='mean', bins=hist_in_pixel_2d_edges)
                                 stat_in_pixel_x_residuals_2d_hist_tmp = np.nan_to_num(stat_in_pixel_x_residuals_2d_hist_tmp)
-- 
2.43.0


From ef283aebaaffd4a8b617592ecc93b4b9947c7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 43/73] fix: select the cluster shapes for the in-pixel cluster
 shapes

---
 beam_telescope_analysis/result_analysis.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 0653699..fe9bf1d 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1097,7 +1097,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # select cluser shapes with cluster size <=4
                     select_small_cluster_sizes = np.zeros_like(select_valid_hit)
                     for cluster_shape_value in efficiency_regions_analyze_cluster_shapes:
-                        select_small_cluster_sizes |= cluster_shape_value == cluster_shape_value
+                        select_small_cluster_sizes |= cluster_shape == cluster_shape_value
                     if efficiency_regions_dut is not None:
                         # for in-pixel statistics
                         # if neccessary increase size of primitive cell (may be larger than single pixel)
@@ -1271,10 +1271,12 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 stat_in_pixel_cluster_size_2d_hist_tmp = np.nan_to_num(stat_in_pixel_cluster_size_2d_hist_tmp)
                                 stat_in_pixel_cluster_size_2d_hists[region_index], _ = np.ma.average(a=np.stack([stat_in_pixel_cluster_size_2d_hists[region_index], stat_in_pixel_cluster_size_2d_hist_tmp]), axis=0, weights=np.stack([count_in_pixel_tracks_with_hit_2d_hists[region_index], count_in_pixel_tracks_with_hit_2d_hist_tmp]), returned=True)
                                 # 2D in-pixel cluster shape
-                                cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
+                                cluster_shape_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes]
+                                cluster_shape_mod_tmp = np.zeros_like(cluster_shape_tmp)
                                 for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
-                                    cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
-                                count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
+                                    cluster_shape_mod_tmp[cluster_shape_tmp == cluster_shape_value] = i
+                                if cluster_shape_mod_tmp.size != 0:
+                                    count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
                                 # updated last:
                                 # 2D in-pixel tracks with valid hit
                                 count_in_pixel_tracks_with_hit_2d_hists[region_index] += count_in_pixel_tracks_with_hit_2d_hist_tmp
@@ -1400,7 +1402,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 count_1d_frame_hist_tmp.resize(count_1d_frame_hist.size, refcheck=False)
                             count_1d_frame_hist += count_1d_frame_hist_tmp
                             # 2D mean cluster size
-                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit & select_small_cluster_sizes], y=intersection_y_local[select_valid_hit & select_small_cluster_sizes], values=cluster_size[select_valid_hit & select_small_cluster_sizes], statistic='mean', bins=hist_2d_edges)
+                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=cluster_size[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_cluster_size_hist_tmp = np.nan_to_num(stat_2d_cluster_size_hist_tmp)
                             stat_2d_cluster_size_hist, _ = np.ma.average(a=np.stack([stat_2d_cluster_size_hist, stat_2d_cluster_size_hist_tmp]), axis=0, weights=np.stack([count_tracks_with_hit_2d_hist, count_tracks_with_hit_2d_hist_tmp]), returned=True)
                             # 1D total track anlge
-- 
2.43.0


From 889ac71870b8cd1b07c367a1fc47fd617ea62e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 44/73] fix: angle histograms of the efficiency for identical
 angles

---
 beam_telescope_analysis/result_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index fe9bf1d..0548b7d 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1204,21 +1204,21 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
                                 local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
+                                efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_total_mean, local_total_std))
                             else:
                                 efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
                             if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
                                 local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
+                                efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_alpha_mean, local_alpha_std))
                             else:
                                 efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
                             if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
                                 local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
+                                efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_beta_mean, local_beta_std))
                             else:
                                 efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_beta_angle_hist[region_index] += efficiency_region_count_1d_beta_angle_hist_tmp
@@ -1330,21 +1330,21 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # 1D total track angle
                             local_total_mean = np.nanmean(total_angles_local[select_valid_hit])
                             local_total_std = np.nanstd(total_angles_local[select_valid_hit])
-                            count_1d_total_angle_hist, count_1d_total_angle_hist_edges = np.histogram(total_angles_local[select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
+                            count_1d_total_angle_hist, count_1d_total_angle_hist_edges = np.histogram(total_angles_local[select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_total_mean, local_total_std))
                             # 2D mean total angle
                             stat_2d_total_angle_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=total_angles_local[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_total_angle_hist = np.nan_to_num(stat_2d_total_angle_hist)
                             # 1D alpha track angle
                             local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_hit])
                             local_alpha_std = np.nanstd(alpha_angles_local[select_valid_hit])
-                            count_1d_alpha_angle_hist, count_1d_alpha_angle_hist_edges = np.histogram(alpha_angles_local[select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
+                            count_1d_alpha_angle_hist, count_1d_alpha_angle_hist_edges = np.histogram(alpha_angles_local[select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_alpha_mean, local_alpha_std))
                             # 2D mean alpha track angle
                             stat_2d_alpha_angle_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=alpha_angles_local[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_alpha_angle_hist = np.nan_to_num(stat_2d_alpha_angle_hist)
                             # 1D beta track angle
                             local_beta_mean = np.nanmean(beta_angles_local[select_valid_hit])
                             local_beta_std = np.nanstd(beta_angles_local[select_valid_hit])
-                            count_1d_beta_angle_hist, count_1d_beta_angle_hist_edges = np.histogram(beta_angles_local[select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
+                            count_1d_beta_angle_hist, count_1d_beta_angle_hist_edges = np.histogram(beta_angles_local[select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_beta_mean, local_beta_std))
                             # 2D mean beta track angle
                             stat_2d_beta_angle_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=beta_angles_local[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_beta_angle_hist = np.nan_to_num(stat_2d_beta_angle_hist)
-- 
2.43.0


From 520a7f58f9abb92f836b01674c16ac16c77b6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 45/73] fix: efficiency when the first tracks have no valid hit

---
 beam_telescope_analysis/result_analysis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 0548b7d..d2ad607 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1032,6 +1032,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                 pbar = tqdm(total=node.shape[0], ncols=80)
                 initialize = True
+                count_tracks_2d_hist = np.zeros(shape=(hist_2d_x_n_bins, hist_2d_y_n_bins), dtype=np.float64)
                 start_index_cluster_hits = 0
                 chunk_indices = []
                 efficiency_chunks = []
@@ -1289,12 +1290,13 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     count_tracks_with_hit_pixel_hist += np.bincount(closest_indices_with_hit, minlength=pixel_center_data.shape[0])[:pixel_center_data.shape[0]]
 
                     # Check if DUT has valid hits
-                    if initialize:
+                    if initialize and np.any(select_valid_hit):
                         initialize = False
                         # 2D tracks
-                        count_tracks_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
+                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                        count_tracks_2d_hist += count_tracks_2d_hist_tmp
                         # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist
+                        count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
                             # 2D hits
                             count_hits_2d_hist, _, _, _ = stats.binned_statistic_2d(x=hit_x_local[select_valid_hit], y=hit_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)
@@ -1357,7 +1359,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # 2D cluster shape vs track angle (local beta)
                             stat_2d_cluster_shape_vs_beta_angle_local_hist, _, _, _ = stats.binned_statistic_2d(x=cluster_shape[select_valid_hit], y=beta_angles_local[select_valid_hit], values=None, statistic='count', bins=[np.arange(2**(4 * 4)), count_1d_beta_angle_hist_edges])
                             # Per chunk
-                            count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist
+                            count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist.copy()
                     else:
                         # 2D tracks
                         count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
@@ -1494,6 +1496,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                     pbar.update(tracks_chunk.shape[0])
                 pbar.close()
+                if initialize:
+                    raise RuntimeError('No valid hits for DUT%d, consider changing cut values!' % actual_dut_index)
 
                 # Calculate efficiency
                 stat_2d_efficiency_hist = np.full_like(count_tracks_2d_hist, fill_value=np.nan, dtype=np.float64)
-- 
2.43.0


From 7dfdd05c0680f63caff216693519210ae57e4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 46/73] fix: efficiency for data chunks without track on
 enabled pixels or inside of the histogram

---
 beam_telescope_analysis/result_analysis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index d2ad607..1fca7e6 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1059,6 +1059,9 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         select_enabled_pixel_hit = np.isin(closest_indices, enabled_pixels_indices)
                     else:
                         select_enabled_pixel_hit = np.ones(shape=intersection_x_local.shape, dtype=bool)
+                    if not np.any(select_enabled_pixel_hit):
+                        pbar.update(tracks_chunk.shape[0])
+                        continue
                     hit_x_local, hit_y_local = hit_x_local[select_enabled_pixel_hit], hit_y_local[select_enabled_pixel_hit]
                     intersection_x_local, intersection_y_local = intersection_x_local[select_enabled_pixel_hit], intersection_y_local[select_enabled_pixel_hit]
                     charge = charge[select_enabled_pixel_hit]
@@ -1479,7 +1482,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         continue
 
                     # Global efficiency per chunk
-                    if np.any(select_valid_hit):
+                    if np.any(select_valid_hit) and np.any(count_tracks_2d_hist_chunk):
                         # Calculate mean efficiency without any binning per chunk
                         eff_chunk, eff_chunk_err_min, eff_chunk_err_max = analysis_utils.get_mean_efficiency(
                             array_pass=count_tracks_with_hit_2d_hist_chunk,
@@ -1606,6 +1609,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 stat_pixel_efficiency_hist = np.ma.array(stat_pixel_efficiency_hist, mask=count_tracks_pixel_hist < minimum_track_density)
                 # stat_pixel_efficiency_hist = np.ma.array(stat_pixel_efficiency_hist, mask=count_tracks_pixel_hist < minimum_track_density)
 
+                if not np.any(stat_2d_efficiency_hist):
+                    raise RuntimeError('All efficiencies for DUT%d are zero, consider changing cut values!' % actual_dut_index)
                 # Calculate mean efficiency without any binning
                 eff, eff_err_min, eff_err_pl = analysis_utils.get_mean_efficiency(
                     array_pass=count_tracks_with_hit_2d_hist,
@@ -1625,8 +1630,6 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             logging.info('Mean charge for region %d (%s) = %.2f' % (region_index + 1, efficiency_regions_names_dut[region_index], mean_charge))
                         else:
                             logging.info('Mean charge for region %d = %.2f' % (region_index + 1, mean_charge))
-                if not np.any(stat_2d_efficiency_hist):
-                    raise RuntimeError('All efficiencies for DUT%d are zero, consider changing cut values!', actual_dut_index)
                 # try:
                 plot_utils.efficiency_plots(
                     telescope=telescope,
-- 
2.43.0


From 8c9c9be64e59e2fd40abe43aabf9532e9a3e50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 47/73] fix: efficiency regions for data chunks without track
 or hit inside of the region

---
 beam_telescope_analysis/result_analysis.py | 64 +++++++++++++---------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 1fca7e6..1d7bc3b 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1174,10 +1174,13 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             select_valid_tracks_efficiency_region &= intersection_y_local < max(region[1])
 
                             # Moving average
-                            efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
-                            efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
+                            n_tracks_region = np.count_nonzero(select_valid_tracks_efficiency_region)
+                            n_tracks_with_hit_region = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])
+                            if n_tracks_region != 0:
+                                efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + n_tracks_with_hit_region) / (efficiency_regions_stat[region_index] + n_tracks_region)
+                            efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + n_tracks_region
                             # Per chunk
-                            efficiency_regions_efficiencies_chunk[region_index] = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region]) / np.count_nonzero(select_valid_tracks_efficiency_region)
+                            efficiency_regions_efficiencies_chunk[region_index] = n_tracks_with_hit_region / n_tracks_region if n_tracks_region != 0 else 0.0
                             if efficiency_regions_count_1d_charge_hist[region_index] is None:
                                 efficiency_regions_count_1d_charge_hist[region_index] = np.bincount(charge[select_valid_tracks_efficiency_region & select_valid_hit].astype(np.int64))
                             else:
@@ -1197,35 +1200,36 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                     efficiency_region_count_1d_frame_hist_tmp.resize(efficiency_regions_count_1d_frame_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_frame_hist[region_index] += efficiency_region_count_1d_frame_hist_tmp
                             if efficiency_regions_count_1d_cluster_size_hist[region_index] is None:
-                                efficiency_regions_count_1d_cluster_size_hist[region_index] = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit])
+                                efficiency_regions_count_1d_cluster_size_hist[region_index] = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit], minlength=1)
                             else:
-                                efficiency_region_count_1d_cluster_size_hist_tmp = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit])
+                                efficiency_region_count_1d_cluster_size_hist_tmp = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit], minlength=1)
                                 if efficiency_region_count_1d_cluster_size_hist_tmp.size > efficiency_regions_count_1d_cluster_size_hist[region_index].size:
                                     efficiency_regions_count_1d_cluster_size_hist[region_index].resize(efficiency_region_count_1d_cluster_size_hist_tmp.size, refcheck=False)
                                 else:
                                     efficiency_region_count_1d_cluster_size_hist_tmp.resize(efficiency_regions_count_1d_cluster_size_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_cluster_size_hist[region_index] += efficiency_region_count_1d_cluster_size_hist_tmp
-                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
-                                local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_total_mean, local_total_std))
-                            else:
-                                efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
-                                efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
-                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
-                                local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_alpha_mean, local_alpha_std))
-                            else:
-                                efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
-                                efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
-                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
-                                local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_beta_mean, local_beta_std))
-                            else:
-                                efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
-                                efficiency_regions_count_1d_beta_angle_hist[region_index] += efficiency_region_count_1d_beta_angle_hist_tmp
+                            if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
+                                if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
+                                    local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_total_mean, local_total_std))
+                                else:
+                                    efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
+                                    efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
+                                if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
+                                    local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_alpha_mean, local_alpha_std))
+                                else:
+                                    efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
+                                    efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
+                                if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
+                                    local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=get_histogram_range(local_beta_mean, local_beta_std))
+                                else:
+                                    efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
+                                    efficiency_regions_count_1d_beta_angle_hist[region_index] += efficiency_region_count_1d_beta_angle_hist_tmp
                             if efficiency_regions_count_1d_cluster_shape_hist[region_index] is None:
                                 efficiency_regions_count_1d_cluster_shape_hist[region_index] = np.histogram(a=cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit], bins=np.arange(2**(4 * 4)))[0]
                             else:
@@ -1245,7 +1249,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                             # for in-pixel statistics
                             # 2D in-pixel tracks
-                            count_in_pixel_tracks_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
+                            if n_tracks_region != 0:
+                                count_in_pixel_tracks_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                             if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
                                 count_in_pixel_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel hits
@@ -1619,6 +1624,11 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 logging.info('Efficiency = %.2f (+%.2f / %.2f)%%' % (eff * 100.0, eff_err_pl * 100.0, eff_err_min * 100.0))
                 if efficiency_regions_dut is not None:
                     for region_index, efficiency in enumerate(efficiency_regions_efficiencies):
+                        # region without valid hits
+                        if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
+                            efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram([], bins=n_bins_track_angle, range=get_histogram_range(0.0, 0.0))
+                            efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram([], bins=n_bins_track_angle, range=get_histogram_range(0.0, 0.0))
+                            efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram([], bins=n_bins_track_angle, range=get_histogram_range(0.0, 0.0))
                         logging.info('Efficiency for region %d%s= %.2f%%' % (region_index + 1, (" (" + efficiency_regions_names_dut[region_index] + ")") if efficiency_regions_names_dut[region_index] else "", efficiency * 100.0))
                         # resize so that all histograms have the same size
                         if count_1d_charge_hist.size > efficiency_regions_count_1d_charge_hist[region_index].size:
-- 
2.43.0


From d74ce5bac00061ca4b74831dcb8e8d0613dafaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 48/73] fix: pixel hits of the clusters in the efficiency

---
 beam_telescope_analysis/result_analysis.py | 27 ++++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 1d7bc3b..92866a4 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -3,6 +3,7 @@ from __future__ import division
 
 import logging
 from collections.abc import Iterable
+from contextlib import ExitStack
 import os.path
 import math
 
@@ -832,11 +833,11 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
     if input_cluster_files is not None and len(select_duts) != len(input_cluster_files):
         raise ValueError('Parameter "input_cluster_files" has wrong length.')
 
-    with tb.open_file(input_tracks_file, mode='r') as in_file_h5:
+    with ExitStack() as cluster_files, tb.open_file(input_tracks_file, mode='r') as in_file_h5:
         with tb.open_file(output_efficiency_file, mode='w') as out_file_h5:
             for index, actual_dut_index in enumerate(select_duts):
                 if input_cluster_files is not None and input_cluster_files[index] is not None:
-                    in_cluster_file_h5 = tb.open_file(filename=input_cluster_files[index], mode='r')
+                    in_cluster_file_h5 = cluster_files.enter_context(tb.open_file(filename=input_cluster_files[index], mode='r'))
                 else:
                     in_cluster_file_h5 = None
                 actual_dut = telescope[actual_dut_index]
@@ -1446,25 +1447,31 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # 2D tracks with valid hit
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
                         count_tracks_2d_hist += count_tracks_2d_hist_tmp
-                    if in_cluster_file_h5:
+                    if in_cluster_file_h5 and np.any(select_valid_hit):
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
+                        # select tracks which are inside the histogram
+                        select_inside_hist = (binnumber[0] >= 1) & (binnumber[0] <= hist_2d_x_n_bins) & (binnumber[1] >= 1) & (binnumber[1] <= hist_2d_y_n_bins)
                         # get 1D index, and remove 1st overflow bin
-                        tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
+                        tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber[:, select_inside_hist] - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
+                        tracks_with_hits = tracks_chunk[select_enabled_pixel_hit][select_valid_hit][select_inside_hist]
                         # event_number_id_array = np.repeat(np.column_stack((tracks_chunk['event_number'][select_valid_hit], tracks_chunk['cluster_id_dut_%d' % actual_dut_index][select_valid_hit])), tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit])
                         for actual_cluster_hits_dut, start_index_cluster_hits in analysis_utils.data_aligned_at_events(in_cluster_file_h5.root.ClusterHits, start_index=start_index_cluster_hits, start_event_number=tracks_chunk['event_number'][0], stop_event_number=tracks_chunk['event_number'][-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):
                             cluster_hits_event_numbers_cluster_ids = actual_cluster_hits_dut[['event_number', 'cluster_ID']]
-                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
+                            selected_event_numbers_clusters_ids = np.array(tracks_with_hits[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
+                            if selected_event_numbers_clusters_ids.size == 0:
+                                continue
                             selected_cluster_hits, selected_indices = analysis_utils.in1d_index(ar1=cluster_hits_event_numbers_cluster_ids, ar2=selected_event_numbers_clusters_ids, fill_invalid=None, assume_sorted=False)
                             # get the cluster hits
                             actual_cluster_hits = actual_cluster_hits_dut[selected_cluster_hits]
-                            # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            # expand size of index array so that the length matches the cluster array
-                            actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, dims=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
+                            if actual_cluster_hits.size == 0:
+                                continue
+                            # get the bin of the track for each cluster hit
+                            actual_bin_center_indices = tracks_with_hits_to_bin_center_index[selected_indices]
+                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, (count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, dims=(actual_dut.n_columns, actual_dut.n_rows)))
+                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(actual_pixel_center_indices, (actual_dut.n_columns, actual_dut.n_rows)))
                             # get the corresponding cluster hits
                             actual_cluster_hits_col_row_pair = np.column_stack((actual_cluster_hits['column'] - 1, actual_cluster_hits['row'] - 1))
                             # calculate the relative index
-- 
2.43.0


From cd228884d9d2e72edd49c0eb27d5ea483cfcd935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 49/73] fix: saving the telescope configuration must not
 destroy the old one on failure

---
 beam_telescope_analysis/telescope/telescope.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index 5e45ddf..de7521e 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -184,8 +184,19 @@ class Telescope(object):
                 configuration["TELESCOPE"]["DUT"][dut_id] = dut_configuration
             if not configuration["TELESCOPE"]["DUT"]:
                 configuration["TELESCOPE"]["DUT"] = {}
-            with open(configuration_file, mode='w') as f:
-                safe_dump(configuration, f, default_flow_style=False)
+            # write to a temporary file that replaces the old configuration once it is complete
+            output_file = os.path.realpath(configuration_file)
+            temporary_file = output_file + '.tmp'
+            try:
+                with open(temporary_file, mode='w') as f:
+                    safe_dump(configuration, f, default_flow_style=False)
+                    f.flush()
+                    os.fsync(f.fileno())
+                getattr(os, 'replace', os.rename)(temporary_file, output_file)
+            except BaseException:
+                if os.path.isfile(temporary_file):
+                    os.remove(temporary_file)
+                raise
         else:
             raise ValueError("No valid configuration file given.")
 
-- 
2.43.0


From ce3a54d3c274e41044b64a33c0c487ef3332f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 50/73] fix: keep_others fails if the existing configuration
 file is empty

---
 beam_telescope_analysis/telescope/telescope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index de7521e..b413ca7 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -168,7 +168,7 @@ class Telescope(object):
         if configuration_file:
             if keep_others and os.path.isfile(os.path.abspath(configuration_file)):
                 with open(os.path.abspath(configuration_file), mode='r') as f:
-                    configuration = safe_load(f)
+                    configuration = safe_load(f) or {}
             else:
                 configuration = {}
             # create Telescope configuration
-- 
2.43.0


From 6b100d17fae1b08acef1fbd5a7933e57f3741104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 51/73] fix: arguments with non-ASCII characters cannot be
 stored

---
 beam_telescope_analysis/tools/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 2014297..d0c7f5b 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -48,7 +48,7 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         row_scan_param = scan_param_table.row
         for key, value in dictionary.items():
             row_scan_param['name'] = key
-            row_scan_param['value'] = str(value)
+            row_scan_param['value'] = str(value).encode('utf-8')
             row_scan_param.append()
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
-- 
2.43.0


From 343989582c807aaf5a22b494f982bfbd4a8bf419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 52/73] fix: creation date given as struct_time is not stored

---
 beam_telescope_analysis/tools/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index d0c7f5b..e5bf3ef 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -53,7 +53,7 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
         elif isinstance(date_created, time.struct_time):
-            time.asctime(date_created)
+            scan_param_table.attrs.date_created = time.asctime(date_created)
         else:
             scan_param_table.attrs.date_created = time.asctime()
         scan_param_table.attrs.bta_version = bta_version
-- 
2.43.0


From 9c84457423c4a3f5051f9169a1e63d2268801a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 53/73] fix: long argument values are truncated when stored

---
 beam_telescope_analysis/tools/storage_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index e5bf3ef..79a9c89 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -44,11 +44,15 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         except tb.NodeError:
             configuration_group = h5_file.get_node(where=h5_file.root, name=group_name)
 
-        scan_param_table = h5_file.create_table(where=configuration_group, name=table_name, description=NameValue, title=table_name)
+        values = {key: str(value).encode('utf-8') for key, value in dictionary.items()}
+        # long values must not be truncated
+        description = {'name': NameValue.columns['name'],
+                       'value': tb.StringCol(max([NameValue.columns['value'].itemsize] + [len(value) for value in values.values()]), pos=1)}
+        scan_param_table = h5_file.create_table(where=configuration_group, name=table_name, description=description, title=table_name)
         row_scan_param = scan_param_table.row
-        for key, value in dictionary.items():
+        for key, value in values.items():
             row_scan_param['name'] = key
-            row_scan_param['value'] = str(value).encode('utf-8')
+            row_scan_param['value'] = value
             row_scan_param.append()
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
-- 
2.43.0


From 2e6f618431b39772be63df82490279dab8c79fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 54/73] fix: stored arguments are those after the call, not
 those passed

---
 beam_telescope_analysis/tools/storage_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 79a9c89..3078021 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -76,6 +76,10 @@ def save_arguments(func):
     @wraps(func)
     def wrapper(*args, **kwargs):
         curr_time = time.time()
+        all_parameters = func.__code__.co_varnames[:func.__code__.co_argcount]
+        all_kwargs = dict(zip(all_parameters, args))
+        all_kwargs.update(kwargs)
+        all_kwargs = {key: str(value) for key, value in all_kwargs.items()}  # lists may be changed by the function
         ret_val = func(*args, **kwargs)
         func_name = func.__name__
         output_files = None
@@ -90,9 +94,6 @@ def save_arguments(func):
                 output_files = ret_val[0]
         if output_files:
             for output_file in output_files:
-                all_parameters = func.__code__.co_varnames[:func.__code__.co_argcount]
-                all_kwargs = dict(zip(all_parameters, args))
-                all_kwargs.update(kwargs)
                 save_configuration_dict(output_file=output_file, table_name=func_name, dictionary=all_kwargs, group_name="arguments", date_created=curr_time, mode="a")
         else:
             logging.warning("Invalid value(s) returned by \"%s()\": function arguments were not saved." % func_name)
-- 
2.43.0


From 34c5b24e9e14c50b6a967886b9f6b90984183a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 55/73] fix: simulate_data uses np.bool which numpy removed

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 978f60a..a08d080 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -765,7 +765,7 @@ class SimulateData(object):
                 actual_event_number = actual_event_number[selection]
 
             # Mask hits due to inefficiency
-            selection = np.ones_like(actual_event_number, dtype=np.bool)
+            selection = np.ones_like(actual_event_number, dtype=bool)
             if self.dut_efficiencies[dut_index] < 1.:
                 hit_indices = np.arange(
                     actual_event_number.shape[0])  # Indices of hits
-- 
2.43.0


From 36efdcf2f1b3ba35fece0da5de051c848bac7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 56/73] fix: simulation creates more events than requested if
 the number is no multiple of the chunk size

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index a08d080..f88e124 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -482,7 +482,7 @@ class SimulateData(object):
         # Fill output files in chunks
         for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
             actual_events, actual_digitized_hits = self._create_data(
-                start_event_number=chunk_index * chunk_size, n_events=chunk_size)
+                start_event_number=chunk_index * chunk_size, n_events=min(chunk_size, n_events - chunk_index * chunk_size))
             for dut_index in range(self._n_duts):
                 actual_dut_events, actual_dut_hits = actual_events[
                     dut_index], actual_digitized_hits[dut_index]
-- 
2.43.0


From 2c51575c4d34d86c8e447a59a87464d09a4196a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 57/73] fix: simulation uses the beam width in x also for y

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index f88e124..427e2c2 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -527,7 +527,7 @@ class SimulateData(object):
             track_positions_x = np.repeat(self.beam_position[0], repeats=n_tracks)  # Constant x = mean_x
 
         if self.beam_position_sigma[1] != 0:
-            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[0], n_tracks)
+            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[1], n_tracks)
 
         else:
             track_positions_y = np.repeat(self.beam_position[1], repeats=n_tracks)  # Constant y = mean_y
-- 
2.43.0


From 70fb946e59d6dacf27068752c7c0628c93b2cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 58/73] fix: simulation with charge sharing has no hits in the
 last column and row

---
 beam_telescope_analysis/tools/simulate_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 427e2c2..d9dfec3 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -144,7 +144,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
     # FIXME: Charges are distributed along a track and not in the center z
     position_z = thickness / 2
     # Calc charge in pixels in + column direction
-    for actual_column in range(int(column), max_column):
+    for actual_column in range(int(column), max_column + 1):
         # Omit row loop if charge fraction is already too low for seed row (=0)
         if (total_fraction >= 1. - min_fraction or
             _calc_charge_fraction(
@@ -160,7 +160,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
@@ -233,7 +233,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
-- 
2.43.0


From 8a1cbf69ec4ee8cc1e289a6fb02a17c54119420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 59/73] fix: simulation ignores the charge cloud correction
 factor

---
 beam_telescope_analysis/tools/simulate_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index d9dfec3..a3a5afa 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -294,7 +294,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
 
 
 @njit()
-def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias):
+def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias, digitization_sigma_cc):
     ''' Add additional hits to seed hits due to charge sharing.
     '''
 
@@ -317,7 +317,7 @@ def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thicknes
             pixel_size_y=pixel_size_y,
             temperature=temperature,
             bias=bias,
-            digitization_sigma_cc=1.,
+            digitization_sigma_cc=digitization_sigma_cc,
             result_hits=result_hits,
             index=index)
 
@@ -743,7 +743,8 @@ class SimulateData(object):
                         pixel_size_x=self.dut_pixel_size[dut_index][0],
                         pixel_size_y=self.dut_pixel_size[dut_index][1],
                         temperature=self.temperature,
-                        bias=self.dut_bias[dut_index])
+                        bias=self.dut_bias[dut_index],
+                        digitization_sigma_cc=self.digitization_sigma_cc)
                     actual_event_number = np.repeat(actual_event_number, n_hits_per_event)
 
                 # Delete hits outside of the DUT
-- 
2.43.0


From a2d5af3252692e2c7ba7ffdf6d6d2e1de730169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 60/73] fix: simulation leaves its output files open if it
 fails

---
 .../tools/simulate_data.py                    | 83 ++++++++++---------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index a3a5afa..cde8bfa 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -461,46 +461,53 @@ class SimulateData(object):
         # Create output h5 files with emtpy hit ta
         output_files = []
         hit_tables = []
-        for dut_index in range(self._n_duts):
-            output_files.append(
-                tb.open_file(base_file_name + '_DUT%d.h5' % dut_index, mode='w'))
-            hit_tables.append(output_files[dut_index].create_table(
-                where=output_files[dut_index].root,
-                name='Hits',
-                description=self._hit_dtype,
-                title='Simulated hits for test beam analysis',
-                filters=tb.Filters(
-                    complib='blosc',
-                    complevel=5,
-                    fletcher32=False)))
-
-        if n_events * self.tracks_per_event > 100000:
-            show_progress = True
-            pbar = tqdm(total=len(range(0, n_events, chunk_size)), ncols=80)
-        else:
-            show_progress = False
-        # Fill output files in chunks
-        for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
-            actual_events, actual_digitized_hits = self._create_data(
-                start_event_number=chunk_index * chunk_size, n_events=min(chunk_size, n_events - chunk_index * chunk_size))
+        try:
             for dut_index in range(self._n_duts):
-                actual_dut_events, actual_dut_hits = actual_events[
-                    dut_index], actual_digitized_hits[dut_index]
-                actual_hits = np.zeros(
-                    shape=actual_dut_events.shape[0], dtype=self._hit_dtype)
-                actual_hits['event_number'] = actual_dut_events
-                actual_hits['column'] = actual_dut_hits.T[0]
-                actual_hits['row'] = actual_dut_hits.T[1]
-                actual_hits['charge'] = actual_dut_hits.T[
-                    2] / 10.  # One charge LSB corresponds to 10 electrons
-                hit_tables[dut_index].append(actual_hits)
+                output_files.append(
+                    tb.open_file(base_file_name + '_DUT%d.h5' % dut_index, mode='w'))
+                hit_tables.append(output_files[dut_index].create_table(
+                    where=output_files[dut_index].root,
+                    name='Hits',
+                    description=self._hit_dtype,
+                    title='Simulated hits for test beam analysis',
+                    filters=tb.Filters(
+                        complib='blosc',
+                        complevel=5,
+                        fletcher32=False)))
+
+            if n_events * self.tracks_per_event > 100000:
+                show_progress = True
+                pbar = tqdm(total=len(range(0, n_events, chunk_size)), ncols=80)
+            else:
+                show_progress = False
+            # Fill output files in chunks
+            for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
+                actual_events, actual_digitized_hits = self._create_data(
+                    start_event_number=chunk_index * chunk_size, n_events=min(chunk_size, n_events - chunk_index * chunk_size))
+                for dut_index in range(self._n_duts):
+                    actual_dut_events, actual_dut_hits = actual_events[
+                        dut_index], actual_digitized_hits[dut_index]
+                    actual_hits = np.zeros(
+                        shape=actual_dut_events.shape[0], dtype=self._hit_dtype)
+                    actual_hits['event_number'] = actual_dut_events
+                    actual_hits['column'] = actual_dut_hits.T[0]
+                    actual_hits['row'] = actual_dut_hits.T[1]
+                    actual_hits['charge'] = actual_dut_hits.T[
+                        2] / 10.  # One charge LSB corresponds to 10 electrons
+                    hit_tables[dut_index].append(actual_hits)
+                if show_progress:
+                    pbar.update(1)
             if show_progress:
-                pbar.update(1)
-        if show_progress:
-            pbar.close()
-
-        for output_file in output_files:
-            output_file.close()
+                pbar.close()
+        finally:
+            error = None
+            for output_file in output_files:
+                try:
+                    output_file.close()
+                except Exception as e:  # close the other files first
+                    error = e
+            if error is not None:
+                raise error
 
     def _create_tracks(self, n_tracks):
         '''Creates tracks with gaussian distributed angles at gaussian distributed positions at z=0.
-- 
2.43.0


From 5daca5ee719e5865491b29a8f35aed839b4d213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 61/73] fix: simulated data with the same seed depends on other
 users of random numbers

---
 .../tools/simulate_data.py                    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index cde8bfa..c55af2b 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -367,7 +367,7 @@ class SimulateData(object):
     def set_random_seed(self, value):
         self.random_seed = value
         # Set the random number seed to be able to rerun with same results
-        np.random.seed(self.random_seed)
+        self._random_state = np.random.RandomState(self.random_seed)
 
     @property
     def n_duts(self):
@@ -528,30 +528,30 @@ class SimulateData(object):
             raise ValueError('beam_angle has to be between [0..pi] Rad')
 
         if self.beam_position_sigma[0] != 0:
-            track_positions_x = np.random.normal(self.beam_position[0], self.beam_position_sigma[0], n_tracks)
+            track_positions_x = self._random_state.normal(self.beam_position[0], self.beam_position_sigma[0], n_tracks)
 
         else:
             track_positions_x = np.repeat(self.beam_position[0], repeats=n_tracks)  # Constant x = mean_x
 
         if self.beam_position_sigma[1] != 0:
-            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[1], n_tracks)
+            track_positions_y = self._random_state.normal(self.beam_position[1], self.beam_position_sigma[1], n_tracks)
 
         else:
             track_positions_y = np.repeat(self.beam_position[1], repeats=n_tracks)  # Constant y = mean_y
 
         if self.beam_angle_sigma != 0:
-            track_angles_theta = np.abs(np.random.normal(self.beam_angle / 1000., self.beam_angle_sigma / 1000., size=n_tracks))  # Gaussian distributed theta
+            track_angles_theta = np.abs(self._random_state.normal(self.beam_angle / 1000., self.beam_angle_sigma / 1000., size=n_tracks))  # Gaussian distributed theta
         else:  # Allow sigma = 0
             track_angles_theta = np.repeat(self.beam_angle / 1000., repeats=n_tracks)  # Constant theta = 0
 
         # Cut down to theta = 0 .. Pi
         iterations = 0
         while(np.any(track_angles_theta > np.pi) or np.any(track_angles_theta < 0)):
-            track_angles_theta[track_angles_theta > np.pi] = np.random.normal(
+            track_angles_theta[track_angles_theta > np.pi] = self._random_state.normal(
                 self.beam_angle,
                 self.beam_angle_sigma,
                 size=track_angles_theta[track_angles_theta > np.pi].shape[0])
-            track_angles_theta[track_angles_theta < 0] = np.random.normal(
+            track_angles_theta[track_angles_theta < 0] = self._random_state.normal(
                 self.beam_angle,
                 self.beam_angle_sigma,
                 size=track_angles_theta[track_angles_theta < 0].shape[0])
@@ -561,7 +561,7 @@ class SimulateData(object):
                     'Cannot create theta between [0, 2 Pi[, decrease track angle sigma!')
 
         if (self.beam_direction[0] != self.beam_direction[1]):
-            track_angles_phi = np.random.uniform(self.beam_direction[0], self.beam_direction[1], size=n_tracks)  # Flat distributed in phi
+            track_angles_phi = self._random_state.uniform(self.beam_direction[0], self.beam_direction[1], size=n_tracks)  # Flat distributed in phi
         else:
             # Constant phi = self.beam_direction
             track_angles_phi = np.repeat(self.beam_direction[0], repeats=n_tracks)
@@ -653,13 +653,13 @@ class SimulateData(object):
                     actual_track_angles_phi, actual_track_angles_theta, r=1.)
 
                 # Calculate scattering in spherical coordinates
-                scattering_phi = np.random.uniform(0, 2. * np.pi, size=actual_track_angles_phi.shape[0])
+                scattering_phi = self._random_state.uniform(0, 2. * np.pi, size=actual_track_angles_phi.shape[0])
                 # Scattering distribution theta_0, calculated from DUT material
                 # budget
                 theta_0 = self._scattering_angle_sigma(material_budget=self.dut_material_budget[dut_index])
                 # Change theta angles due to scattering, abs because theta is
                 # defined [0..np.pi]
-                scattering_theta = np.abs(np.random.normal(0, theta_0, actual_track_angles_theta.shape[0]))
+                scattering_theta = np.abs(self._random_state.normal(0, theta_0, actual_track_angles_theta.shape[0]))
 
                 # Add scattering to direction vector in cartesian coordinates
                 # r does not define a direction in spherical coordinates, any r
@@ -777,7 +777,7 @@ class SimulateData(object):
             if self.dut_efficiencies[dut_index] < 1.:
                 hit_indices = np.arange(
                     actual_event_number.shape[0])  # Indices of hits
-                np.random.shuffle(hit_indices)  # shuffle hit indeces
+                self._random_state.shuffle(hit_indices)  # shuffle hit indeces
                 n_inefficient_hit = int(
                     hit_indices.shape[0] * (1. - self.dut_efficiencies[dut_index]))
                 selection[hit_indices[:n_inefficient_hit]] = False
@@ -787,7 +787,7 @@ class SimulateData(object):
 
             # Add noise to charge
             if self.dut_noise[dut_index] != 0:
-                dut_hits_digits[:, 2] += np.random.normal(0, self.dut_noise[dut_index], dut_hits_digits[:, 2].shape[0])
+                dut_hits_digits[:, 2] += self._random_state.normal(0, self.dut_noise[dut_index], dut_hits_digits[:, 2].shape[0])
 
             # Delete hits below threshold
             if self.dut_threshold[dut_index] != 0:
@@ -803,7 +803,7 @@ class SimulateData(object):
     def _create_data(self, start_event_number=0, n_events=10000):
         # Calculate the number of tracks per event
         if self.tracks_per_event_sigma > 0:
-            n_tracks_per_event = np.random.normal(self.tracks_per_event, self.tracks_per_event_sigma, n_events).astype(np.int32)
+            n_tracks_per_event = self._random_state.normal(self.tracks_per_event, self.tracks_per_event_sigma, n_events).astype(np.int32)
         else:
             n_tracks_per_event = np.ones(n_events, dtype=np.int32) * self.tracks_per_event
         # One cannot have less than 0 tracks per event, this will be triggered
@@ -856,7 +856,7 @@ class SimulateData(object):
 #         plt.plot(charge, p)
 #         plt.show()
 
-        return np.random.choice(charge, n_entries, p=p)
+        return self._random_state.choice(charge, n_entries, p=p)
 
     def _scattering_angle_sigma(self, material_budget, charge_number=1):
         '''Calculates the scattering angle sigma for multiple scattering simulation. A Gaussian distribution
-- 
2.43.0


From 4988ea4f4aae5502c21a3077159a85449962f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 62/73] fix: calculate_transformation fails if there are no
 tracks for a DUT in the file or in the first chunks

---
 beam_telescope_analysis/dut_alignment.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index b01490c..0bf8dfa 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1831,6 +1831,9 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                 slopes = slopes[limit_xy_local_sel]
                 offsets = offsets[limit_xy_local_sel]
                 n_tracks = np.count_nonzero(limit_xy_local_sel)
+                if n_tracks == 0:  # nothing to align with
+                    chunk_index += 1
+                    continue
 
                 x_dut_start = actual_dut.translation_x
                 y_dut_start = actual_dut.translation_y
@@ -1968,6 +1971,10 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                 total_n_tracks += n_tracks
                 chunk_index += 1
 
+            if total_n_tracks == 0:
+                logging.warning('Cannot calculate transformation for %s: no tracks available', actual_dut.name)
+                continue
+
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-- 
2.43.0


From 376e6c7e4da955684b8f9fca3c45e80d10146815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 63/73] fix: calculate_transformation takes the rotation of the
 last chunk instead of the average of all chunks

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 0bf8dfa..f70a771 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1978,7 +1978,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation)
+            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation_average)
 
             actual_dut.translation_x = translation_average[0]
             actual_dut.translation_y = translation_average[1]
-- 
2.43.0


From 888f743aa9e18e24d9a6a07c331619e897d4e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 64/73] fix: align fails for lists of DUTs of different lengths
 and if no DUTs are selected

---
 beam_telescope_analysis/dut_alignment.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index f70a771..694b6b3 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -644,7 +644,6 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
 
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
@@ -665,8 +664,10 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
+
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
@@ -1011,7 +1012,6 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
 
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
@@ -1032,8 +1032,10 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
+
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
-- 
2.43.0


From 34ea574ee2302d5787074246c9a0202977632715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 65/73] fix: prealign searches the hits of the correlation at
 the wrong place if the reference plane is not at the origin

---
 beam_telescope_analysis/dut_alignment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 694b6b3..2c6ab5a 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -263,7 +263,6 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 logging.info('Pre-aligning data from %s', node.name)
                 bin_size = node.attrs.resolution
                 ref_hist_extent = node.attrs.ref_hist_extent
-                ref_hist_size = (ref_hist_extent[1] - ref_hist_extent[0])
                 dut_hist_extent = node.attrs.dut_hist_extent
                 dut_hist_size = (dut_hist_extent[1] - dut_hist_extent[0])
 
@@ -313,7 +312,7 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 # find loactions where the max. correlation is close to expected value
                 x_list = find_inliers(
                     x=dut_pos[max_select != 0],
-                    y=(max_select[max_select != 0] * bin_size - ref_hist_size / 2.0 + bin_size / 2.0),
+                    y=(max_select[max_select != 0] * bin_size + ref_hist_extent[0] + bin_size / 2.0),
                     m=slope,
                     c=offset_plot,
                     threshold=pixel_size * np.sqrt(12) * 2)
-- 
2.43.0


From a10041756548459621d4fc6cf39096ac10b3c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 66/73] fix: align fails with infinite quality distances (None)

---
 beam_telescope_analysis/dut_alignment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 2c6ab5a..c217e54 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1198,9 +1198,11 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
         # reqire hits in each DUT that will be aligned
         actual_hit_duts = [list(set(select_hit_duts) | set([dut_index])) for dut_index in actual_align_duts]
         actual_quality_duts = actual_hit_duts
-        fit_quality_distances = np.zeros_like(quality_distances)
+        fit_quality_distances = np.zeros((len(quality_distances), 2))
         for index, item in enumerate(quality_distances):
-            if index in align_duts:
+            if item is None:  # infinite distance
+                fit_quality_distances[index] = np.inf
+            elif index in align_duts:
                 fit_quality_distances[index, 0] = np.linspace(item[0] * 1.08447**max_iterations, item[0], max_iterations)[iteration_step]
                 fit_quality_distances[index, 1] = np.linspace(item[1] * 1.08447**max_iterations, item[1], max_iterations)[iteration_step]
             else:
-- 
2.43.0


From b0de7dec409080adc4a2e5abc510c6ccb78faf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 67/73] fix: calculate_transformation fails for tracks that do
 not determine all parameters (e.g. parallel tracks)

---
 beam_telescope_analysis/dut_alignment.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index c217e54..4d2a36a 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1912,7 +1912,12 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                     # SVD
                     u, s, v = np.linalg.svd(tot_matr, full_matrices=False)
 
-                    diag = np.diag(s ** -1)
+                    # no change in directions that are not determined by the tracks,
+                    # e.g., the z position for parallel tracks
+                    s_inv = np.zeros_like(s)
+                    s_determined = s > s[0] * max(tot_matr.shape) * np.finfo(s.dtype).eps
+                    s_inv[s_determined] = s[s_determined] ** -1
+                    diag = np.diag(s_inv)
                     tot_matr_inv = np.dot(v.T, np.dot(diag, u.T))
                     omega_b_dot = np.dot(tot_matr_inv, -lin_alpha * tot_b)
                     # Some alignment parameters can be fixed to initial values
-- 
2.43.0


From 4711c9093cf31b0623bcfe97f0ff907bb349b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 68/73] fix: align_kalman fails if track_chi2 is a number or
 None

---
 beam_telescope_analysis/dut_alignment.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 4d2a36a..0b0ab7d 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1117,6 +1117,13 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     if len(max_tracks) != len(select_duts):
         raise ValueError("Parameter max_tracks has the wrong length.")
 
+    # Create chi2 array
+    if not isinstance(track_chi2, Iterable):
+        track_chi2 = [track_chi2] * len(select_duts)
+    # Finally check length
+    if len(track_chi2) != len(select_duts):
+        raise ValueError("Parameter track_chi2 has the wrong length.")
+
     if output_telescope_configuration is None:
         if 'prealigned' in telescope_configuration:
             output_telescope_configuration = telescope_configuration.replace('prealigned', 'aligned_kalman')
@@ -1546,7 +1553,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
                 chi2s_probs[track_index] = chi2s_prob
 
                 # Data quality check I: Check chi2 of track
-                if chi2s_red > track_chi2:
+                if track_chi2 and chi2s_red > track_chi2:
                     continue
 
                 # Actual track states
-- 
2.43.0


From c571007456977ca7e615b4a8ad85afce81ea190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 69/73] fix: align_kalman fails if alignment_parameters is None

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 0b0ab7d..b9266bd 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1040,7 +1040,7 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
 
     # Create list
     if alignment_parameters is None:
-        alignment_parameters = [[None] * len(duts) for duts in select_duts]
+        alignment_parameters = [[default_alignment_parameters] * n_duts for _ in select_duts]
     # Check for value errors
     if not isinstance(alignment_parameters, Iterable):
         raise ValueError("Parameter alignment_parameters is not an iterable.")
-- 
2.43.0


From d07cdce26a77cd973ebe068f6b3914442fbed6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 70/73] fix: align_kalman gives NaN for planes without a hit in
 the track

---
 beam_telescope_analysis/dut_alignment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index b9266bd..ace1dc5 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -2048,6 +2048,9 @@ def _update_alignment_parameters(telescope, H, V, C0, p0, a0, E0, track_hits, a1
     ''' Update alignment parameters and check for change. If rel. change too large, change is rejected.
     '''
     for dut_index, dut in enumerate(telescope):
+        # No information without a hit
+        if np.any(np.isnan(track_hits[0, dut_index, :2])):
+            continue
         R = geometry_utils.rotation_matrix(
                 alpha=dut.rotation_alpha,
                 beta=dut.rotation_beta,
-- 
2.43.0


From f2298ff443536e8d344c18796d58e046cc95a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 71/73] fix: align_kalman creates plots if plot is False

---
 beam_telescope_analysis/dut_alignment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index ace1dc5..9cc82e6 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1669,9 +1669,10 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
 
                 fitted_duts.extend(actual_fit_duts)
 
-    output_pdf_file = output_alignment_file[:-3] + '.pdf'
-    # Plot alignment result
-    plot_utils.plot_kf_alignment(output_alignment_file, telescope, output_pdf_file)
+    if plot:
+        output_pdf_file = output_alignment_file[:-3] + '.pdf'
+        # Plot alignment result
+        plot_utils.plot_kf_alignment(output_alignment_file, telescope, output_pdf_file)
 
     # Delete tmp track candidates file
     os.remove(input_track_candidates_file)
-- 
2.43.0


From 40d7834c4bdb855e9208d7c72239f02e7b8579cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 72/73] fix: hits outside of the first pixel are lost in the
 in-pixel efficiency histograms

---
 beam_telescope_analysis/result_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 92866a4..ab5f714 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1110,14 +1110,16 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         in_pixel_intersection_x_local, in_pixel_intersection_y_local = actual_dut.map_to_primitive_cell(intersection_x_local, intersection_y_local)
 
                         resize_in_pixel_hist = False
-                        if np.any(in_pixel_intersection_x_local > dut_in_pixel_hist_x_size):
+                        in_pixel_x_max = np.nanmax(np.concatenate((in_pixel_intersection_x_local, in_pixel_hit_x_local)), initial=0.0)
+                        if in_pixel_x_max > dut_in_pixel_hist_x_size:
                             resize_in_pixel_hist = True
-                            dut_in_pixel_hist_x_size = math.ceil(np.ceil(np.max(in_pixel_intersection_x_local) / actual_dut.column_size) * actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
+                            dut_in_pixel_hist_x_size = math.ceil(np.ceil(in_pixel_x_max / actual_dut.column_size) * actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
                             hist_in_pixel_x_n_bins = int(round(dut_in_pixel_hist_x_size / in_pixel_resolution[0]))
                             hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
-                        if np.any(in_pixel_intersection_y_local > dut_in_pixel_hist_y_size):
+                        in_pixel_y_max = np.nanmax(np.concatenate((in_pixel_intersection_y_local, in_pixel_hit_y_local)), initial=0.0)
+                        if in_pixel_y_max > dut_in_pixel_hist_y_size:
                             resize_in_pixel_hist = True
-                            dut_in_pixel_hist_y_size = math.ceil(np.ceil(np.max(in_pixel_intersection_y_local) / actual_dut.row_size) * actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
+                            dut_in_pixel_hist_y_size = math.ceil(np.ceil(in_pixel_y_max / actual_dut.row_size) * actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
                             hist_in_pixel_y_n_bins = int(round(dut_in_pixel_hist_y_size / in_pixel_resolution[1]))
                             hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                         if resize_in_pixel_hist:
-- 
2.43.0


From 8af3b9b4548b35f010808305998219d89df6def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 73/73] fix: a worker process that dies makes
 split/map/combine, correlate and fit_tracks hang

---
 beam_telescope_analysis/hit_analysis.py   |  3 ++-
 beam_telescope_analysis/tools/smc.py      | 33 ++++++++++++++++++-----
 beam_telescope_analysis/track_analysis.py |  4 +++
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 972c720..fed5c25 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1382,6 +1382,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                 else:
                     ref_use_positions = False
 
+                workers = list(pool._pool)
                 pbar = tqdm(total=ref_node.shape[0], ncols=80)
 
                 # Loop over the hits/clusters of reference DUT
@@ -1413,7 +1414,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                             'chunk_size': chunk_size}))
                     # Collect results when available
                     for index, dut_result in enumerate(dut_results):
-                        (start_indices[index], x_correlations[index], y_correlations[index]) = dut_result.get()
+                        (start_indices[index], x_correlations[index], y_correlations[index]) = smc.get_result(dut_result, workers)
 
                     pbar.update(ref_data_chunk.shape[0])
                 pbar.close()
diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index c8b35f2..259a89b 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -1,7 +1,7 @@
 ''' Implements the often needed split, map, combine paradigm '''
 from __future__ import division
 
-from multiprocessing import Pool, cpu_count, TimeoutError
+from multiprocessing import Pool, cpu_count
 from threading import Thread, Event
 from collections import deque
 
@@ -35,6 +35,22 @@ def _run_with_dill(data, payload):
         return func(data, **(kwargs["func_kwargs"]))
 
 
+def check_workers(workers):
+    ''' Raise an exception if a worker process of a pool died (e.g., killed because it ran out of memory).
+
+    The pool replaces the process, but the result of its task will never be available. '''
+    if not all(worker.is_alive() for worker in workers):
+        raise RuntimeError('Worker process terminated unexpectedly')
+
+
+def get_result(result, workers):
+    ''' Wait for the result of a task that was submitted to a pool with the given worker processes. '''
+    while not result.ready():
+        check_workers(workers)
+        result.wait(timeout=0.1)
+    return result.get()
+
+
 class SMC(object):
     def __init__(self, input_filename, output_filename, func, func_kwargs=None, node_desc=None, table=None, align_at=None, n_cores=None, mode='w', chunk_size=1000000):
         ''' Apply a function to a pytable on multiple cores in chunks.
@@ -258,10 +274,11 @@ class SMC(object):
             if self.n_cores == 1:
                 res_data = res
             else:
-                try:
-                    res_data = res.get(timeout=0.01)
-                except TimeoutError:
+                res.wait(timeout=0.01)
+                if not res.ready():
+                    check_workers(self.workers)
                     continue
+                res_data = res.get()
             res = None
             if not isinstance(res_data, (list, tuple)):
                 res_data = (res_data,)
@@ -364,6 +381,7 @@ class SMC(object):
 
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
+        self.workers = list(self.pool._pool)
 
         self.out_file_opened.clear()
         self.force_stop.clear()
@@ -388,9 +406,10 @@ class SMC(object):
         self.writer_thread.join()
         self.writer_thread = None
 
-        self.pool.close()
-        self.pool.join()
-        self.pool = None
+        if self.exception is None:  # a pool with unfinished tasks of a dead worker process cannot be joined
+            self.pool.close()
+            self.pool.join()
+            self.pool = None
 
 
 if __name__ == '__main__':
diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 2947b75..446ce39 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -23,6 +23,7 @@ from beam_telescope_analysis.tools import plot_utils
 from beam_telescope_analysis.tools import analysis_utils
 from beam_telescope_analysis.tools import geometry_utils
 from beam_telescope_analysis.tools import kalman
+from beam_telescope_analysis.tools import smc
 from beam_telescope_analysis.tools.storage_utils import save_arguments
 
 
@@ -769,6 +770,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
 
     fitted_duts = []
     with tb.open_file(input_track_candidates_file, mode='r') as in_file_h5, Pool() as pool:
+        workers = list(pool._pool)
         with tb.open_file(output_tracks_file, mode='w') as out_file_h5:
             for fit_dut_index, actual_fit_dut in enumerate(select_duts):  # Loop over the DUTs where tracks shall be fitted for
                 # Test whether other DUTs have identical tracks
@@ -966,6 +968,8 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                             'alpha': alpha_factor}) for track_hits_slice in track_hits_slices]
 
                     # Store results
+                    for result in results:
+                        smc.get_result(result, workers)
                     offsets = np.concatenate([result.get()[0] for result in results])  # Merge offsets from all cores in results
                     slopes = np.concatenate([result.get()[1] for result in results])  # Merge slopes from all cores in results
                     if method == 'kalman':
-- 
2.43.0

