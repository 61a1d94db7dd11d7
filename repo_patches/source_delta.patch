From d112a850abfc23dcbaa7b5409bfc4fbc809a9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:31 +0000
Subject: [PATCH 01/50] fix: read and clear pool queues in one critical section

A result put by the pool's callback thread between the copy of the queue and
its clear was dropped: the sample was never reported and n_running never
reached zero.
---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..7298db1 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Thread safe read and clear, a result put between these two steps would be lost
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From fa950b8a0c66590913ad7ef05fd8a3e8f950e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:31 +0000
Subject: [PATCH 02/50] fix: failure to prepare a sample workspace is a failed
 sample

handle_sim_files() was called outside of the try block, so a missing common
file or an unwritable directory aborted the whole run (or a PBS job with all
its remaining samples) instead of failing the sample.
---
 mlmc/sampling_pool.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 7298db1..3d203aa 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -99,9 +99,10 @@ class SamplingPool(ABC):
         err_msg = ""
         running_time = 0
 
-        if level_sim.need_sample_workspace:
-            SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
+            if level_sim.need_sample_workspace:
+                SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
+
             start = time.time()
             res = level_sim._calculate(level_sim.config_dict, seed)
             running_time = time.time() - start
-- 
2.43.0


From 13b7ca99bc90192a35085f8045464a86888bb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:31 +0000
Subject: [PATCH 03/50] fix: pool error callback reports a failed sample

The error callback passed the exception to res_callback(), which unpacks a
result tuple: the TypeError killed the result handler thread, so the sample
and all later results were lost.
---
 mlmc/sampling_pool.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 3d203aa..aa9963c 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -313,6 +313,17 @@ class ProcessPool(OneProcessPool):
         """
         self._process_result(*result, level_sim)
 
+    def err_callback(self, error, sample_id, level_sim):
+        """
+        Process exception raised outside of the sample calculation (e.g. result can not be pickled)
+        :param error: Exception
+        :param sample_id: str
+        :param level_sim: LevelSimulation instance
+        :return: None
+        """
+        err_msg = "".join(traceback.format_exception(type(error), error, error.__traceback__))
+        self._process_result(sample_id, (None, None), err_msg, 0, level_sim)
+
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
 
@@ -321,7 +332,7 @@ class ProcessPool(OneProcessPool):
 
         self._pool.apply_async(SamplingPool.calculate_sample, args=(sample_id, level_sim, self._output_dir),
                                callback=lambda res: self.res_callback(res, level_sim),
-                               error_callback=lambda res: self.res_callback(res, level_sim))
+                               error_callback=lambda err: self.err_callback(err, sample_id, level_sim))
 
 
 class ThreadPool(ProcessPool):
-- 
2.43.0


From 4edeee9c16ec1eb8491da56708fd17c4ed6091ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 04/50] fix: report every sample running time only once

get_finished() returned running times accumulated since the pool was created
while sample storages sum up times of all calls, so earlier samples were
counted repeatedly and the cost per sample was wrong.
---
 mlmc/sampling_pool.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index aa9963c..3d7f605 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -2,6 +2,7 @@ import os
 import sys
 import shutil
 import queue
+import threading
 import time
 import hashlib
 import numpy as np
@@ -216,6 +217,8 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        self._times_lock = threading.Lock()
+        # Results of parallel pools are processed in a separate thread
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -259,13 +262,14 @@ class OneProcessPool(SamplingPool):
         :param running_time: float
         :return: None
         """
-        # Save sample times [total time, number of samples]
-        if level_id not in self.times:
-            self.times[level_id] = [0, 0]
-        # Failed samples have running time equal 0 by default
-        if running_time != 0:
-            self.times[level_id][0] += running_time
-            self.times[level_id][1] += 1
+        with self._times_lock:
+            # Save sample times [total time, number of samples]
+            if level_id not in self.times:
+                self.times[level_id] = [0, 0]
+            # Failed samples have running time equal 0 by default
+            if running_time != 0:
+                self.times[level_id][0] += running_time
+                self.times[level_id][1] += 1
 
     def have_permanent_samples(self, sample_ids):
         return False
@@ -277,7 +281,11 @@ class OneProcessPool(SamplingPool):
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
 
-        return successful, failed, self._n_running, list(self.times.items())
+        # Times since the previous call, sample storage sums them up
+        with self._times_lock:
+            times, self.times = self.times, {}
+
+        return successful, failed, self._n_running, list(times.items())
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From 68241a883e131bcd59a6b89684aa750384a7c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 05/50] fix: memory storage averages cost per sample over all
 saved batches

save_n_ops() summed up the means of individual batches; the cost per sample
grew with the number of calls. HDF storage already keeps total time and
number of samples.
---
 mlmc/sample_storage.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..c58db72 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -292,19 +292,20 @@ class Memory(SampleStorage):
         """
         for level, (time, n_samples) in n_ops:
             if level not in self._n_ops:
-                self._n_ops[level] = 0
+                self._n_ops[level] = [0., 0]
 
             if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+                self._n_ops[level][0] += time
+                self._n_ops[level][1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_ops = list(np.zeros(max(self._n_ops.keys(), default=-1) + 1))
+        for level, (time, n_samples) in self._n_ops.items():
+            n_ops[level] = time / n_samples if n_samples > 0 else 0
         return n_ops
 
     def unfinished_ids(self):
-- 
2.43.0


From ebcf0376cf558aaa6636246218c4577c3632dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 06/50] fix: memory storage counts all failed samples as
 finished

The first batch of failed samples of a level was not counted and levels
without any finished sample got an uninitialised number.
---
 mlmc/sample_storage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index c58db72..d1a76e1 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -199,8 +199,8 @@ class Memory(SampleStorage):
 
             if level_id not in self._n_finished:
                 self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+
+            self._n_finished[level_id] += len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
@@ -215,7 +215,7 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_finished = np.zeros(max(self._n_finished.keys(), default=-1) + 1)
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
-- 
2.43.0


From cadad045190952364d18d8ca5368a9dba425d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:32 +0000
Subject: [PATCH 07/50] fix: compare all locations of quantity specifications

The comparison was one-sided: a specification whose locations are only a part
of the other's ones was considered equal, so a storage with a different result
format was silently accepted.
---
 mlmc/quantity/quantity_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index ea25dc6..e174137 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and not (set(self.locations) - set(other.locations)):
+                and np.array_equal(self.locations, other.locations):
             return True
         return False
 
-- 
2.43.0


From 1d6726e133e66dd1a8e95f561461b5488225321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 08/50] fix: load result format with point locations

load_result_format() raised AttributeError for (x, y, z) locations, which
save_result_format() takes for 'nothing saved yet': a different result format
was silently written over the saved one. Three letter location names were
taken for points.
---
 mlmc/sample_storage_hdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..672e599 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -38,7 +38,7 @@ class SampleStorageHDF(SampleStorage):
         QuantitySpec data type, necessary for hdf storage
         :return:
         """
-        if len(locations[0]) == 3:
+        if not isinstance(locations[0], str) and len(locations[0]) == 3:
             tuple_dtype = np.dtype((np.float, (3,)))
             loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
         else:
@@ -106,7 +106,7 @@ class SampleStorageHDF(SampleStorage):
         quantities = []
         for res_format in results_format:
             spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() for loc in res_format[4]])
+                                [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]])
 
             quantities.append(spec)
 
-- 
2.43.0


From 8a659dcb20aca2c691d8cdb3d63dc9ba9d070071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 09/50] fix: do not skip jobs while removing finished pbs ids

The list of pbs ids was modified during iteration: the job following a
finished one was skipped, so its samples were not counted as running.
---
 mlmc/sampling_pool_pbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..58e519f 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -306,7 +306,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
-- 
2.43.0


From c5c30a3ee87d3d5514e6019b70963119fd3d5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 10/50] fix: new pbs job id is greater than all existing ones

glob() returns files in arbitrary order, so an id of an existing job could be
used again and its files overwritten.
---
 mlmc/sampling_pool_pbs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 58e519f..731eb11 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -101,8 +101,7 @@ class SamplingPoolPBS(SamplingPool):
         if not files:
             return 0
 
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        return max(int(re.findall(r'(\d+)_job.sh', file)[-1]) for file in files) + 1
 
     def _save_structure(self):
         """
-- 
2.43.0


From 603928f6cba2901228058940bb1cf6b9138fccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 11/50] fix: samples waiting for successful qsub are not
 finished

When qsub failed and no other job was running, get_finished() reported zero
running samples and the sampler stopped waiting for them.
---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 731eb11..ba6f954 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -330,8 +330,8 @@ class SamplingPoolPBS(SamplingPool):
         """
         os.chdir(self._jobs_dir)
 
-        # Get number of running samples
-        n_running = 0
+        # Get number of running samples, samples which are not submitted yet (qsub failed) are waiting
+        n_running = len(self._scheduled)
         for pbs_id in unfinished_pbs_jobs:
             reg = "*_{}".format(pbs_id)
             file = glob.glob(reg)
-- 
2.43.0


From c46331aff9985b409f6ae575b67f9c6914390874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:34 +0000
Subject: [PATCH 12/50] Revert "fix: compare all locations of quantity
 specifications"

This reverts commit cadad045190952364d18d8ca5368a9dba425d53d.
---
 mlmc/quantity/quantity_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index e174137..ea25dc6 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and np.array_equal(self.locations, other.locations):
+                and not (set(self.locations) - set(other.locations)):
             return True
         return False
 
-- 
2.43.0


From f2fb0b4c71327edfe7ec064f224ab28bbce4fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:15 +0000
Subject: [PATCH 13/50] fix: collect outcomes of unfinished pbs jobs after
 restart once per job

Samples of earlier jobs were collected once per unfinished sample, reported
failures were ignored and running times were not taken over.
---
 mlmc/sampling_pool_pbs.py | 25 +++++++++++++------------
 mlmc/tool/pbs_job.py      |  4 +++-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index ba6f954..a759736 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -382,32 +382,33 @@ class SamplingPoolPBS(SamplingPool):
         :param times: dict
         :return: all input dictionaries
         """
-        already_collected = set()
+        collected_jobs = set()
         for sample_id in self._unfinished_sample_ids:
-            if sample_id in already_collected:
+            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+            if job_id in collected_jobs:
                 continue
 
-            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+            collected_jobs.add(job_id)
             successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
             # Split results to levels
             for level_id, results in successful.items():
                 for res in results:
                     if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
                         successful_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in failed_results.items():
+            for level_id, results in failed.items():
                 for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
+                    # Sample without any outcome can still be running
+                    if res[0] in self._unfinished_sample_ids and res[1] != PbsJob.JOB_FAILED:
                         failed_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
+            for level_id, results in time.items():
+                if level_id in times:
+                    times[level_id][0] += results[-1][0]
+                    times[level_id][1] += results[-1][1]
+                else:
+                    times[level_id] = list(results[-1])
 
             # Delete pbsID file - it means job is finished
             # SamplingPoolPBS.delete_pbs_id_file(file)
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a39b864..d016ff2 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -27,6 +27,8 @@ class PbsJob:
     SAMPLE_ID_JOB_ID = "sample_id_job_id.json"
     # Sample id with corresponding job id,
     # used to indicate that sample is stored in _successful_results.yaml or _failed_results.yaml
+    JOB_FAILED = "job failed"
+    # Error message of sample without any outcome in the job files
 
     def __init__(self, output_dir, jobs_dir, job_id, level_sim_file, debug):
         """
@@ -324,7 +326,7 @@ class PbsJob:
             successfull_ids = [success[0] for success in successful.get(level_id, [])]
             failed_ids = [f[0] for f in failed.get(level_id, [])]
             if sample_id not in failed_ids and sample_id not in successfull_ids:
-                failed.setdefault(level_id, []).append((sample_id, "job failed"))
+                failed.setdefault(level_id, []).append((sample_id, PbsJob.JOB_FAILED))
 
         # if "end" in successful:
         #     del successful["end"]
-- 
2.43.0


From 029a91971ebb812900caba7ae70212fb3c346b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 14/50] fix: unsubmitted samples do not abort the collection
 after restart

---
 mlmc/sampling_pool_pbs.py | 3 ++-
 mlmc/tool/pbs_job.py      | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index a759736..c009b29 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -385,7 +385,8 @@ class SamplingPoolPBS(SamplingPool):
         collected_jobs = set()
         for sample_id in self._unfinished_sample_ids:
             job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
-            if job_id in collected_jobs:
+            # Skip samples which had not been submitted before the crash and jobs which have already been read
+            if job_id is None or job_id in collected_jobs:
                 continue
 
             collected_jobs.add(job_id)
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index d016ff2..3d13368 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -255,12 +255,14 @@ class PbsJob:
         Get job ID for given sample ID
         :param sample_id: str
         :param jobs_dir: jobs directory with results
-        :return: str, job id
+        :return: str, job id or None if the sample has not been submitted
         """
         sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
+        if not os.path.exists(sample_id_job_id_file):
+            return None
         with open(sample_id_job_id_file, "r") as file:
             saved_ids = json.load(file)
-        return saved_ids[sample_id]
+        return saved_ids.get(sample_id)
 
     def _append_file(self, data, path):
         """
-- 
2.43.0


From 01b7197829c73654ddb3d910aef91be355b4e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 15/50] fix: cached samples belong to one quantity

The cache was keyed by id(), a new quantity could get the cached samples of
a deleted one.
---
 mlmc/quantity/quantity.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..45aaa40 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,3 +1,4 @@
+import itertools
 import operator
 import numpy as np
 import scipy.stats
@@ -33,6 +34,9 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+    _counter = itertools.count()
+    # Source of unique identifiers of quantities
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -117,11 +121,14 @@ class Quantity:
     def get_cache_key(self, chunk_spec):
         """
         Create cache key
+        Note: id() can't be used to identify a quantity, it could be reused for another quantity
         """
+        if '_unique_id' not in self.__dict__:
+            self._unique_id = next(Quantity._counter)
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._unique_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From 7b6bdab025637d37360715000cb722d9134fcb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 16/50] fix: wrap bool as a quantity of BoolType

---
 mlmc/quantity/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 45aaa40..7788372 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -451,10 +451,10 @@ class Quantity:
         """
         if isinstance(value, Quantity):
             return value
+        elif isinstance(value, bool):  # Note: bool is a subclass of int
+            quantity = QuantityConst(quantity_type=qt.BoolType(), value=value)
         elif isinstance(value, (int, float)):
             quantity = QuantityConst(quantity_type=qt.ScalarType(), value=value)
-        elif isinstance(value, bool):
-            quantity = QuantityConst(quantity_type=qt.BoolType(), value=value)
         elif isinstance(value, (list, np.ndarray)):
             value = np.array(value)
             qtype = qt.ArrayType(shape=value.shape, qtype=qt.ScalarType())
-- 
2.43.0


From da0ea194dc515bf2ce8f38b3ad90d9f9cedc8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 17/50] fix: constant quantities always have the shape [M, 1,
 1]

Constants made of constants got additional axes, matrices were broadcast wrongly.
---
 mlmc/quantity/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 7788372..268b3c7 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -543,7 +543,7 @@ class QuantityConst(Quantity):
         """
         if isinstance(value, (int, float, bool)):
             value = np.array([value])
-        return value[:, np.newaxis, np.newaxis]
+        return value.reshape((-1, 1, 1))
 
     def selection_id(self):
         """
-- 
2.43.0


From 77981b6d296ab31b9c7b7f56e1bddba361155a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 18/50] fix: index arrays of structured items

Items of an array of e.g. arrays could not be accessed, a key with fewer or
more items than axes reached the axis of samples.
---
 mlmc/quantity/quantity_types.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 41d6ea7..be55399 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -128,10 +128,12 @@ class ArrayType(QType):
         :param key: slice
         :return:
         """
-        # Reshape M to original shape to allow access
+        # Indices of selected array items, the key concerns just axes of the array
         assert self._shape is not None
-        chunk = chunk.reshape((*self._shape, chunk.shape[-2], chunk.shape[-1]))
-        return QType.keep_dims(chunk[key])
+        items = np.arange(np.prod(self._shape)).reshape(self._shape)[key]
+        # Array items have the size of the inner type
+        chunk = chunk.reshape((np.prod(self._shape), self._qtype.size(), chunk.shape[-2], chunk.shape[-1]))
+        return QType.keep_dims(chunk[items])
 
     def reshape(self, data):
         if isinstance(self._qtype, ScalarType):
-- 
2.43.0


From 3cd70b9651dbec08987225a1b2f5bf1d4bc606be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 19/50] fix: items of QuantityMean agree with items of the
 quantity

A tuple key was taken as an index of levels and the first axis.
---
 mlmc/quantity/quantity.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 268b3c7..9760360 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -649,12 +649,11 @@ class QuantityMean:
         if not isinstance(self.qtype, qt.ArrayType):
             key = slice(start, start + new_qtype.size())
 
-        # Getting items, it performs reshape inside
-        l_means = self.l_means[:, key]
-        l_vars = self.l_vars[:, key]
+        # Getting items, levels take the place of samples in the chunk
+        l_means = self.qtype._make_getitem_op(self._l_means.T[..., np.newaxis], key=key)[..., 0].T
+        l_vars = self.qtype._make_getitem_op(self._l_vars.T[..., np.newaxis], key=key)[..., 0].T
 
-        return QuantityMean(quantity_type=new_qtype, l_means=l_means.reshape((l_means.shape[0], -1)),
-                            l_vars=l_vars.reshape((l_vars.shape[0], -1)), n_samples=self._n_samples,
+        return QuantityMean(quantity_type=new_qtype, l_means=l_means, l_vars=l_vars, n_samples=self._n_samples,
                             n_rm_samples=self._n_rm_samples)
 
 
-- 
2.43.0


From 85235b4f0117f4273f2473101627fa7e1e155a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:36 +0000
Subject: [PATCH 20/50] fix: estimate_diff_vars uses the moments of the
 estimate by default

---
 mlmc/estimator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index af4f6e0..4b62825 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -81,6 +81,9 @@ class Estimate:
             diff_variance - shape LxR, variances of diffs of moments_fn
             n_samples -  shape L, num samples for individual levels.
         """
+        if moments_fn is None:
+            moments_fn = self._moments_fn
+
         moments_mean = qe.estimate_mean(qe.moments(self._quantity, moments_fn))
         return moments_mean.l_vars, moments_mean.n_samples
 
-- 
2.43.0


From fd21f00f0dda9c79fd04af587cd326c21e24552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:44 +0000
Subject: [PATCH 21/50] fix: estimate_domain reads the samples of each level

---
 mlmc/estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 4b62825..d8b481e 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -294,8 +294,8 @@ class Estimate:
             except AttributeError:
                 print("No collected values for level {}".format(level_id))
                 break
-            chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
-            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
+            chunk_spec = next(sample_storage.chunks(level_id=level_id, n_samples=sample_storage.get_n_collected()[level_id]))
+            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at the level
 
             fine_samples = np.squeeze(fine_samples)
             fine_samples = fine_samples[~np.isnan(fine_samples)]  # remove NaN
-- 
2.43.0


From cc7ce89e9304c0e2a2d17a7b77d9f65d4ac8cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:51 +0000
Subject: [PATCH 22/50] fix: subsample draws the requested number of samples
 over all chunks

---
 mlmc/estimator.py         |  2 +-
 mlmc/quantity/quantity.py | 24 +++++++++++++-----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index d8b481e..8037edb 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -186,7 +186,7 @@ class Estimate:
         bs_l_means = []
         bs_l_vars = []
         for i in range(n_subsamples):
-            quantity_subsample = self.quantity.select(self.quantity.subsample(sample_vec=sample_vector))
+            quantity_subsample = self.quantity.subsample(sample_vec=sample_vector)
             moments_quantity = qe.moments(quantity_subsample, moments_fn=moments_fn, mom_at_bottom=False)
             q_mean = qe.estimate_mean(moments_quantity)
 
diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 9760360..25188dd 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -355,20 +355,22 @@ class Quantity:
         # Create a QuantityConst of dictionary in the sense of hashing dictionary items
         quantity_subsample_params = Quantity.wrap(hash(frozenset(subsample_level_params.items())))
 
-        def adjust_value(values, level_id):
+        def adjust_value(values, chunk_spec):
             """
             Custom implementation of QuantityConst.adjust_value()
-            It allows us to get different parameters for different levels
+            It allows us to get different parameters for different levels,
+            parameters are reset for the first chunk of a level, the remaining chunks carry on
             """
-            subsample_l_params_obj = subsample_level_params[level_id]
-            subsample_l_params_obj.k = subsample_l_params_obj._orig_k
-            subsample_l_params_obj.n = subsample_l_params_obj._orig_n
-            subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
+            subsample_l_params_obj = subsample_level_params[chunk_spec.level_id]
+            if chunk_spec.chunk_id == 0:
+                subsample_l_params_obj.k = subsample_l_params_obj._orig_k
+                subsample_l_params_obj.n = subsample_l_params_obj._orig_n
+                subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
             return subsample_l_params_obj
         quantity_subsample_params._adjust_value = adjust_value
 
-        return Quantity(quantity_type=self.qtype.replace_scalar(qt.BoolType()),
-                        input_quantities=[self, quantity_subsample_params], operation=Quantity.pick_samples)
+        return Quantity(quantity_type=self.qtype, input_quantities=[self, quantity_subsample_params],
+                        operation=Quantity.pick_samples)
 
     def __getitem__(self, key):
         """
@@ -552,12 +554,12 @@ class QuantityConst(Quantity):
         """
         return self._selection_id
 
-    def _adjust_value(self, value, level_id=None):
+    def _adjust_value(self, value, chunk_spec=None):
         """
         Allows process value based on chunk_epc params (such as level_id, ...).
         The custom implementation is used in Qunatity.subsample method
         :param value: np.ndarray
-        :param level_id: int
+        :param chunk_spec: object containing chunk identifier, level identifier, ...
         :return: np.ndarray, particular type depends on implementation
         """
         return value
@@ -569,7 +571,7 @@ class QuantityConst(Quantity):
         :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray
         """
-        return self._adjust_value(self._value, chunk_spec.level_id)
+        return self._adjust_value(self._value, chunk_spec)
 
 
 class QuantityMean:
-- 
2.43.0


From 9ff067b5b256c8e7362b4ec4a5898b188d6ce53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:51 +0000
Subject: [PATCH 23/50] fix: cache key of samples contains the range of the
 chunk

---
 mlmc/quantity/quantity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 25188dd..55d9897 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -125,10 +125,10 @@ class Quantity:
         """
         if '_unique_id' not in self.__dict__:
             self._unique_id = next(Quantity._counter)
-        chunk_size = None
+        chunk_range = None
         if chunk_spec.chunk_slice is not None:
-            chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._unique_id)  # redundant parentheses needed due to py36, py37
+            chunk_range = (chunk_spec.chunk_slice.start, chunk_spec.chunk_slice.stop)
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_range, self._unique_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From ff8bdc75992d84edb66cc928c0fec1535ba45423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:51 +0000
Subject: [PATCH 24/50] fix: estimate_domain function covers all levels with
 their own numbers of samples

---
 mlmc/estimator.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 8037edb..797ca57 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -5,7 +5,6 @@ import mlmc.quantity.quantity_estimate as qe
 import mlmc.tool.simple_distribution
 from mlmc.quantity.quantity_types import ScalarType
 from mlmc.plot import plots
-from mlmc.quantity.quantity_spec import ChunkSpec
 
 
 class Estimate:
@@ -352,18 +351,7 @@ def estimate_domain(quantity, sample_storage, quantile=None):
     :param quantile: float in interval (0, 1), None means whole sample range
     :return: lower_bound, upper_bound
     """
-    ranges = []
-    if quantile is None:
-        quantile = 0.01
-
-    for level_id in range(sample_storage.get_n_levels()):
-        fine_samples = quantity.samples(ChunkSpec(level_id=level_id, n_samples=sample_storage.get_n_collected()[0]))[..., 0]
-
-        fine_samples = np.squeeze(fine_samples)
-        ranges.append(np.percentile(fine_samples, [100 * quantile, 100 * (1 - quantile)]))
-
-    ranges = np.array(ranges)
-    return np.min(ranges[:, 0]), np.max(ranges[:, 1])
+    return Estimate.estimate_domain(quantity, sample_storage, quantile=quantile)
 
 
 def estimate_n_samples_for_target_variance(target_variance, prescribe_vars, n_ops, n_levels):
-- 
2.43.0


From 6f390ef5d8eb0429dd6eb173e4e1f477219a8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 25/50] fix: moments keep and compare the reference domain

---
 mlmc/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2329566..2705087 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -45,6 +45,7 @@ class Moments:
         return type(self) is type(other) \
                 and self.size == other.size \
                 and np.all(self.domain == other.domain) \
+                and np.all(self.ref_domain == other.ref_domain) \
                 and self._is_log == other._is_log \
                 and self._is_clip == other._is_clip
 
@@ -53,7 +54,7 @@ class Moments:
         Return moment object with different size.
         :param size: int, new number of _moments_fn
         """
-        return self.__class__(size, self.domain, self._is_log, self._is_clip)
+        return self.__class__(size, self.domain, ref_domain=self.ref_domain, log=self._is_log, safe_eval=self._is_clip)
 
     def clip(self, value):
         """
-- 
2.43.0


From 9a399f1501f55c2b6a20c76176604b0e3733c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 26/50] fix: Fourier.eval agrees with eval_all, values of any
 shape

---
 mlmc/moments.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2705087..b5dbe7c 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -151,25 +151,25 @@ class Fourier(Moments):
         R = int(size / 2)
         shorter_sin = 1 - int(size % 2)
         k = np.arange(1, R + 1)
-        kx = np.outer(t, k)
+        kx = t[..., np.newaxis] * k
 
-        res = np.empty((len(t), size))
-        res[:, 0] = 1
+        res = np.empty(t.shape + (size,))
+        res[..., 0] = 1
 
         # Odd column index
-        res[:, 1::2] = np.cos(kx[:, :])
+        res[..., 1::2] = np.cos(kx)
         # Even column index
-        res[:, 2::2] = np.sin(kx[:, : R - shorter_sin])
+        res[..., 2::2] = np.sin(kx[..., : R - shorter_sin])
         return res
 
     def eval(self, i, value):
         t = self.transform(np.atleast_1d(value))
         if i == 0:
-            return 1
+            return np.ones_like(t)
         elif i % 2 == 1:
-            return np.sin( (i - 1) / 2 * t)
+            return np.cos((i + 1) / 2 * t)
         else:
-            return np.cos(i / 2 * t)
+            return np.sin(i / 2 * t)
 
 
 class Legendre(Moments):
-- 
2.43.0


From f42529444ffe55ccb2c5803d459b4e895da91005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 27/50] fix: moment values and derivatives for any size and
 shape

---
 mlmc/moments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index b5dbe7c..da7b1d1 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -77,7 +77,7 @@ class Moments:
         return self._eval_all(value, self.size)
 
     def eval(self, i, value):
-        return self._eval_all(value, i+1)[:, -1]
+        return self._eval_all(value, i+1)[..., -1]
 
     def eval_single_moment(self, i, value):
         """
@@ -216,18 +216,18 @@ class Legendre(Moments):
                 coef[-1] = 1
 
             coef = np.polynomial.legendre.legder(coef, degree)
-            eval_values[:, s] = np.polynomial.legendre.legval(value, coef)
+            eval_values[..., s] = np.polynomial.legendre.legval(value, coef)
         return eval_values
 
     def _eval_diff(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff_mat
+        return P_n @ self.diff_mat[:size, :size]
 
     def _eval_diff2(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff2_mat
+        return P_n @ self.diff2_mat[:size, :size]
 
 
 class TransformedMoments(Moments):
-- 
2.43.0


From b7b1e72f016986f41bee9e8835182fa7f4c08991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 28/50] fix: set_points drops the decomposition for the
 previous points

---
 mlmc/random/correlated_field.py | 1511 ++++++++++++++++---------------
 1 file changed, 756 insertions(+), 755 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..e538242 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -1,755 +1,756 @@
-import copy
-import numpy as np
-import numpy.linalg as la
-import numpy.random as rand
-import scipy as sp
-from sklearn.utils.extmath import randomized_svd
-import warnings
-warnings.simplefilter('always', DeprecationWarning)
-import gstools
-
-
-def kozeny_carman(porosity, m, factor, viscosity):
-    """
-    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
-    :param porosity: Porosity value.
-    :param m: Power. Suitable values are 1 < m < 4
-    :param factor: [m^2]
-        E.g. 1e-7 ,   m = 3.48;  juta fibers
-             2.2e-8 ,     1.46;  glass fibers
-             1.8e-13,     2.89;  erruptive material
-             1e-12        2.76;  erruptive material
-             1.8e-12      1.99;  basalt
-    :param viscosity: [Pa . s], water: 8.90e-4
-    :return:
-    """
-    assert np.all(viscosity > 1e-10)
-    porosity = np.minimum(porosity, 1-1e-10)
-    porosity = np.maximum(porosity, 1e-10)
-    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
-    cond = np.maximum(cond, 1e-15)
-    return cond
-
-
-def positive_to_range(exp, a, b):
-    """
-    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
-    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
-    :param exp: A positive parameter. (LogNormal distribution.)
-    :param a, b: Range interval.
-    """
-    return b * (1 - (b - a) / (b + (b - a) * exp))
-
-
-class Field:
-    def __init__(self, name, field=None, param_fields=[], regions=[]):
-        """
-        :param name: Name of the field.
-        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
-               for evaluation of the field from its param_fields.
-        :param regions: Domain where field is sampled.
-        :param param_fields: List of names of parameter fields, dependees.
-        TODO: consider three different derived classes for: const, random and func fields.
-        """
-        self.correlated_field = None
-        self.const = None
-        self._func = field
-        self.is_outer = True
-
-        if type(regions) is str:
-            regions = [regions]
-        self.name = name
-        if type(field) in [float, int]:
-            self.const = field
-            assert len(param_fields) == 0
-        elif isinstance(field, RandomFieldBase):
-            self.correlated_field = field
-            assert len(param_fields) == 0
-        else:
-            assert len(param_fields) > 0, field
-
-            # check callable
-            try:
-                params = [np.ones(2) for i in range(len(param_fields))]
-                field(*params)
-            except:
-                raise Exception("Invalid field function for field: {}".format(name))
-            self._func = field
-
-        self.regions = regions
-        self.param_fields = param_fields
-
-    def set_points(self, points):
-        """
-        Internal method to set evaluation points. See Fields.set_points.
-        """
-        if self.const is not None:
-            self._sample = self.const * np.ones(len(points))
-        elif self.correlated_field is not None:
-            self.correlated_field.set_points(points)
-            if type(self.correlated_field) is  SpatialCorrelatedField:
-                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
-                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
-        else:
-            pass
-
-    def sample(self):
-        """
-        Internal method to generate/compute new sample.
-        :return:
-        """
-        if self.const is not None:
-            return self._sample
-        elif self.correlated_field is not None:
-            self._sample = self.correlated_field.sample()
-        else:
-            params = [ pf._sample for pf in self.param_fields]
-            self._sample = self._func(*params)
-        return self._sample
-
-
-class Fields:
-
-    def __init__(self, fields):
-        """
-        Creates a new set of cross dependent random fields.
-        Currently no support for cross-correlated random fields.
-        A set of independent basic random fields must exist
-        other fields can be dependent in deterministic way.
-
-        :param fields: A list of dependent fields.
-
-        Example:
-        rf = SpatialCorrelatedField(log=True)
-        Fields([
-            Field('por_top', rf, regions='ground_0'),
-            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
-            Field('por_bot', rf, regions='ground_1'),
-            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
-            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
-            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
-            ])
-
-        TODO: use topological sort to fix order of 'fields'
-        TODO: syntactic sugar for calculating with fields (like with np.arrays).
-        """
-        self.fields_orig = fields
-        self.fields_dict = {}
-        self.fields = []
-
-        # Have to make a copy of the fields since we want to generate the samples in them
-        # and the given instances of Field can be used by an independent FieldSet instance.
-        for field in self.fields_orig:
-            new_field = copy.copy(field)
-            if new_field.param_fields:
-                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
-            self.fields_dict[new_field.name] = new_field
-            self.fields.append(new_field)
-
-    def _get_field_obj(self, field_name, regions):
-        """
-        Get fields by name, replace constants by constant fields for unification.
-        """
-        if type(field_name) in [float, int]:
-            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
-            self.fields.insert(0, const_field)
-            self.fields_dict[const_field.name] = const_field
-            return const_field
-        else:
-            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
-            return self.fields_dict[field_name]
-
-    @property
-    def names(self):
-        return self.fields_dict.keys()
-
-    # def iterative_dfs(self, graph, start, path=[]):
-    #     q = [start]
-    #     while q:
-    #         v = q.pop(0)
-    #         if v not in path:
-    #             path = path + [v]
-    #             q = graph[v] + q
-    #
-    #     return path
-
-    def set_outer_fields(self, outer):
-        """
-        Set fields that will be in a dictionary produced by FieldSet.sample() call.
-        :param outer: A list of names of fields that are sampled.
-        :return:
-        """
-        outer_set = set(outer)
-        for f in self.fields:
-            if f.name in outer_set:
-                f.is_outer = True
-            else:
-                f.is_outer = False
-
-    def set_points(self, points, region_ids=[], region_map={}):
-        """
-        Set mesh related data to fields.
-        - set points for sample evaluation
-        - translate region names to region ids in fields
-        - create maps from region constraned point sets of fields to full point set
-        :param points: np array of points for field evaluation
-        :param regions: regions of the points;
-               empty means no points for fields restricted to regions and all points for unrestricted fields
-        :return:
-        """
-        self.n_elements = len(points)
-        assert len(points) == len(region_ids)
-        reg_points = {}
-        for i, reg_id in enumerate(region_ids):
-            reg_list = reg_points.get(reg_id, [])
-            reg_list.append(i)
-            reg_points[reg_id] = reg_list
-
-        for field in self.fields:
-            point_ids = []
-            if field.regions:
-                for reg in field.regions:
-                    reg_id = region_map[reg]
-                    point_ids.extend(reg_points.get(reg_id, []))
-                field.set_points(points[point_ids])
-                field.full_sample_ids = point_ids
-            else:
-                field.set_points(points)
-                field.full_sample_ids = np.arange(self.n_elements)
-
-    def sample(self):
-        """
-        Return dictionary of sampled fields.
-        :return: { 'field_name': sample, ...}
-        """
-        result = {}
-        for field in self.fields:
-            sample = field.sample()
-            if field.is_outer:
-                result[field.name] = np.zeros(self.n_elements)
-                result[field.name][field.full_sample_ids] = sample
-        return result
-
-
-class RandomFieldBase:
-    """
-    Base class for various methods for generating random fields.
-
-    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
-    E[F(x)]       = mu(x)
-    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
-
-    We assume stationary random field with covariance matrix Cov_ij:
-        Cov_i,j = c(x_i - x_j)
-    where c(X) is the "stationary covariance" function. We assume:
-          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
-    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
-          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
-
-    where:
-        - sigma(X) is the standard deviance of the single uncorrelated value
-        - K is a positive definite tensor with eigen vectors corresponding to
-          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
-          length in singel main direction.
-        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
-
-    SVD decomposition:
-        Considering first m vectors, such that lam(m)/lam(0) <0.1
-
-    Example:
-    ```
-        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
-        X, Y = np.mgrid[0:1:10j, 0:1:10j]
-        points = np.vstack([X.ravel(), Y.ravel()])
-        field.set_points(points)
-        sample = field.sample()
-
-    ```
-    """
-
-    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
-                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
-        """
-        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
-        :param dim: dimension of the domain (size of point coords)
-        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
-        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
-        :param mu - mu field (currently just a constant)
-        :param sigma - sigma field (currently just a constant)
-
-        TODO:
-        - implement anisotropy in the base class using transformation matrix for the points
-        - use transformation matrix also for the corr_length
-        - replace corr_exp by aux classes for various correlation functions and pass them here
-        - more general set of correlation functions
-        """
-        self.dim = dim
-        self.log = log
-
-        if corr_exp == 'gauss':
-            self.correlation_exponent = 2.0
-        elif corr_exp == 'exp':
-            self.correlation_exponent = 1.0
-        else:
-            self.correlation_exponent = float(corr_exp)
-
-        # TODO: User should prescribe scaling for main axis and their rotation.
-        # From this we should construct the transformation matrix for the points
-        self._corr_length = corr_length
-        if aniso_correlation is None:
-            assert corr_length > np.finfo(float).eps
-            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
-            self._max_corr_length = corr_length
-        else:
-            self.correlation_tensor = aniso_correlation
-            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
-
-        #### Attributes set through `set_points`.
-        self.points = None
-        # Evaluation points of the field.
-        self.mu = mu
-        # Mean in points. Or scalar.
-        self.sigma = sigma
-        # Standard deviance in points. Or scalar.
-
-        self._initialize(**kwargs)  # Implementation dependent initialization.
-
-    def _initialize(self, **kwargs):
-        raise NotImplementedError()
-
-    def set_points(self, points, mu=None, sigma=None):
-        """
-        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
-        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
-        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
-        :return: None
-        """
-        points = np.array(points, dtype=float)
-
-        assert len(points.shape) >= 1
-        assert points.shape[1] == self.dim
-        self.n_points, self.dimension = points.shape
-        self.points = points
-
-        if mu is not None:
-            self.mu = mu
-        self.mu = np.array(self.mu, dtype=float)
-        assert self.mu.shape == () or self.mu.shape == (len(points),)
-
-        if sigma is not None:
-            self.sigma = sigma
-        self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or sigma.shape == (len(points),)
-
-    def _set_points(self):
-        pass
-
-    def sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-               Removed as the spectral method do not support it.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        # if uncorelated is None:
-        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        # else:
-        #     assert uncorelated.shape == (self.n_approx_terms,)
-
-        field = self._sample()
-        field = self.sigma * field + self.mu
-
-        if not self.log:
-            return field
-        return np.exp(field)
-
-    def _sample(self, uncorrelated):
-        raise NotImplementedError()
-
-
-class SpatialCorrelatedField(RandomFieldBase):
-
-    def _initialize(self, **kwargs):
-        """
-        Called after initialization in common constructor.
-        """
-
-        ### Attributes computed in precalculation.
-        self.cov_mat = None
-        # Covariance matrix (dense).
-        self._n_approx_terms = None
-        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
-        self._cov_l_factor = None
-        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
-        self._sqrt_ev = None
-        # (Reduced) square roots of singular values.
-
-    def _set_points(self):
-        self.cov_mat = None
-        self._cov_l_factor = None
-
-    def cov_matrix(self):
-        """
-        Setup dense covariance matrix for given set of points.
-        :return: None.
-        """
-        assert self.points is not None, "Points not set, call set_points."
-
-        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
-        diameter = np.max(np.abs(box[1] - box[0]))
-        self._relative_corr_length = self._max_corr_length / diameter
-
-        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
-        self._sigma_sqr_max = np.max(self.sigma) ** 2
-        n_pt = len(self.points)
-        self.cov_mat = np.empty((n_pt, n_pt))
-        corr_exp = self.correlation_exponent / 2.0
-
-        for i_row in range(n_pt):
-            pt = self.points[i_row]
-            diff_row = self.points - pt
-            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
-            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
-        return self.cov_mat
-
-    def _eigen_value_estimate(self, m):
-        """
-        Estimate of the m-th eigen value of the covariance matrix.
-        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
-        However for small gamma the asimtotics holds just for to big values of 'm'.
-        We rather need to find a semiempricial formula.
-        greater
-        :param m:
-        :return:
-        """
-        assert self.cov_mat is not None
-        d = self.dimension
-        alpha = self.correlation_exponent
-        gamma = self._relative_corr_length
-        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
-
-    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
-        """
-        Does decomposition of covariance matrix defined by set of points
-        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
-        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
-        given precision is snapped to the given interval.
-
-        truncated SVD:
-         cov_mat = U*diag(ev) * V,
-         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
-
-        Note on number of terms:
-        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
-        the eigen values should decay as (Proposition 2.18):
-            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
-        where gamma = correlation length / domain diameter
-        ans alpha is the correlation exponent. Gamma is the gamma function.
-        ... should be checked experimantaly and generalized for sigma(X)
-
-        :return:
-        """
-        if self.cov_mat is None:
-            self.cov_matrix()
-
-        if n_terms_range[0] >= self.n_points:
-            U, ev, VT = np.linalg.svd(self.cov_mat)
-            m = self.n_points
-        else:
-            range = list(n_terms_range)
-            range[0] = max(1, range[0])
-            range[1] = min(self.n_points, range[1])
-
-            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
-            if precision < prec_range[0]:
-                m = range[0]
-            elif precision > prec_range[1]:
-                m = range[1]
-            else:
-                f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
-
-            m = max(m, range[0])
-            threshold = 2 * precision
-            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
-            while threshold >= precision and m <= range[1]:
-                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
-                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
-                threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
-
-            m = len(ev)
-            m = min(m, range[1])
-
-        #print("KL approximation: {} for {} points.".format(m, self.n_points))
-        self.n_approx_terms = m
-        self._sqrt_ev = np.sqrt(ev[0:m])
-        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
-        self.cov_mat = None
-        return self._cov_l_factor, ev[0:m]
-
-    def _sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        if self._cov_l_factor is None:
-            self.svd_dcmp()
-        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        return self._cov_l_factor.dot(uncorelated)
-
-
-class GSToolsSpatialCorrelatedField(RandomFieldBase):
-
-    def __init__(self, model, mode_no=1000, log=False, sigma=1):
-        """
-        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
-        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
-        """
-        self.model = model
-        self.mode_no = mode_no
-        self.srf = gstools.SRF(model, mode_no=mode_no)
-        self.mu = self.srf.mean
-        self.sigma = sigma
-        self.dim = model.dim
-        self.log = log
-
-    def change_srf(self, seed):
-        """
-        Spatial random field with new seed
-        :param seed: int, random number generator seed
-        :return: None
-        """
-        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
-
-    def random_field(self):
-        """
-        Generate the spatial random field
-        :return: field, np.ndarray
-        """
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x))
-            field = self.srf((x,))
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            field = self.srf((x, y))
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-            field = self.srf((x, y, z))
-
-        return field
-
-    def sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'
-        """
-        if not self.log:
-            return self.sigma * self.random_field() + self.mu
-        return np.exp(self.sigma * self.random_field() + self.mu)
-
-
-class FourierSpatialCorrelatedField(RandomFieldBase):
-    """
-    Generate spatial random fields
-    """
-
-    def _initialize(self, **kwargs):
-        """
-        Own intialization.
-        :param mode_no: Number of Fourier modes
-        """
-        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
-            DeprecationWarning)
-        self.len_scale = self._corr_length * 2*np.pi
-        self.mode_no = kwargs.get("mode_no", 1000)
-
-    def get_normal_distr(self):
-        """
-        Normal distributed arrays
-        :return: np.ndarray
-        """
-        Z = np.empty((2, self.mode_no))
-        rng = self._get_random_stream()
-        for i in range(2):
-            Z[i] = rng.normal(size=self.mode_no)
-
-        return Z
-
-    def _sample_sphere(self, mode_no):
-        """Uniform sampling on a d-dimensional sphere
-        Parameters
-        ----------
-            mode_no : :class:`int`, optional
-                number of the Fourier modes
-        Returns
-        -------
-            coord : :class:`numpy.ndarray`
-                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
-        """
-        coord = self._create_empty_k(mode_no)
-        if self.dim == 1:
-            rng = self._get_random_stream()
-            ang1 = rng.random_sample(mode_no)
-            coord[0] = 2 * np.around(ang1) - 1
-        elif self.dim == 2:
-            rng = self._get_random_stream()
-            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
-            coord[0] = np.cos(ang1)
-            coord[1] = np.sin(ang1)
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return coord
-
-    def gau(self, mode_no=1000):
-        """
-        Compute a gaussian spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        len_scale = self.len_scale * np.sqrt(np.pi / 4)
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # weibull distribution sampling
-            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def exp(self, mode_no=1000):
-        """
-        Compute an exponential spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
-            k[0] = np.tan(k_u) / self.len_scale
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # sampling with ppf
-            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def _create_empty_k(self, mode_no=None):
-        """ Create empty mode array with the correct shape.
-        Parameters
-        ----------
-            mode_no : :class:`int`
-                number of the fourier modes
-        Returns
-        -------
-            :class:`numpy.ndarray`
-                the empty mode array
-        """
-        if mode_no is None:
-            k = np.empty(self.dim)
-        else:
-            k = np.empty((self.dim, mode_no))
-
-        return k
-
-    def _get_random_stream(self, seed=None):
-        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
-
-    def random_field(self):
-        """
-        Calculates the random modes for the randomization method.
-        """
-        y, z = None, None
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x), 1)
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-
-        normal_distr_values = self.get_normal_distr()
-
-        if self.correlation_exponent == 2:
-            k = self.gau(self.mode_no)
-        else:
-            k = self.exp(self.mode_no)
-
-        # reshape for unstructured grid
-        for dim_i in range(self.dim):
-            k[dim_i] = np.squeeze(k[dim_i])
-            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
-
-        summed_modes = np.broadcast(x, y, z)
-        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
-        # Test to see if enough memory is available.
-        # In case there isn't, divide Fourier modes into smaller chunks
-        chunk_no = 1
-        chunk_no_exp = 0
-
-        while True:
-            try:
-                chunk_len = int(np.ceil(self.mode_no / chunk_no))
-
-                for chunk in range(chunk_no):
-                    a = chunk * chunk_len
-                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
-                    # numpy, use the commented min-function below
-                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
-                    e = (chunk + 1) * chunk_len
-
-                    if self.dim == 1:
-                        phase = k[0, a:e]*x
-                    elif self.dim == 2:
-                        phase = k[0, a:e]*x + k[1, a:e]*y
-                    else:
-                        phase = (k[0, a:e]*x + k[1, a:e]*y +
-                                 k[2, a:e]*z)
-
-                    summed_modes += np.squeeze(
-                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
-                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
-                               axis=-1))
-            except MemoryError:
-                chunk_no += 2**chunk_no_exp
-                chunk_no_exp += 1
-                print('Not enough memory. Dividing Fourier modes into {} '
-                      'chunks.'.format(chunk_no))
-            else:
-                break
-
-        field = np.sqrt(1.0 / self.mode_no) * summed_modes
-        return field
-
-    def _sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        return self.random_field()
-
-        if not self.log:
-            return field
-        return np.exp(field)
+import copy
+import numpy as np
+import numpy.linalg as la
+import numpy.random as rand
+import scipy as sp
+from sklearn.utils.extmath import randomized_svd
+import warnings
+warnings.simplefilter('always', DeprecationWarning)
+import gstools
+
+
+def kozeny_carman(porosity, m, factor, viscosity):
+    """
+    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
+    :param porosity: Porosity value.
+    :param m: Power. Suitable values are 1 < m < 4
+    :param factor: [m^2]
+        E.g. 1e-7 ,   m = 3.48;  juta fibers
+             2.2e-8 ,     1.46;  glass fibers
+             1.8e-13,     2.89;  erruptive material
+             1e-12        2.76;  erruptive material
+             1.8e-12      1.99;  basalt
+    :param viscosity: [Pa . s], water: 8.90e-4
+    :return:
+    """
+    assert np.all(viscosity > 1e-10)
+    porosity = np.minimum(porosity, 1-1e-10)
+    porosity = np.maximum(porosity, 1e-10)
+    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
+    cond = np.maximum(cond, 1e-15)
+    return cond
+
+
+def positive_to_range(exp, a, b):
+    """
+    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
+    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
+    :param exp: A positive parameter. (LogNormal distribution.)
+    :param a, b: Range interval.
+    """
+    return b * (1 - (b - a) / (b + (b - a) * exp))
+
+
+class Field:
+    def __init__(self, name, field=None, param_fields=[], regions=[]):
+        """
+        :param name: Name of the field.
+        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
+               for evaluation of the field from its param_fields.
+        :param regions: Domain where field is sampled.
+        :param param_fields: List of names of parameter fields, dependees.
+        TODO: consider three different derived classes for: const, random and func fields.
+        """
+        self.correlated_field = None
+        self.const = None
+        self._func = field
+        self.is_outer = True
+
+        if type(regions) is str:
+            regions = [regions]
+        self.name = name
+        if type(field) in [float, int]:
+            self.const = field
+            assert len(param_fields) == 0
+        elif isinstance(field, RandomFieldBase):
+            self.correlated_field = field
+            assert len(param_fields) == 0
+        else:
+            assert len(param_fields) > 0, field
+
+            # check callable
+            try:
+                params = [np.ones(2) for i in range(len(param_fields))]
+                field(*params)
+            except:
+                raise Exception("Invalid field function for field: {}".format(name))
+            self._func = field
+
+        self.regions = regions
+        self.param_fields = param_fields
+
+    def set_points(self, points):
+        """
+        Internal method to set evaluation points. See Fields.set_points.
+        """
+        if self.const is not None:
+            self._sample = self.const * np.ones(len(points))
+        elif self.correlated_field is not None:
+            self.correlated_field.set_points(points)
+            if type(self.correlated_field) is  SpatialCorrelatedField:
+                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
+                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
+        else:
+            pass
+
+    def sample(self):
+        """
+        Internal method to generate/compute new sample.
+        :return:
+        """
+        if self.const is not None:
+            return self._sample
+        elif self.correlated_field is not None:
+            self._sample = self.correlated_field.sample()
+        else:
+            params = [ pf._sample for pf in self.param_fields]
+            self._sample = self._func(*params)
+        return self._sample
+
+
+class Fields:
+
+    def __init__(self, fields):
+        """
+        Creates a new set of cross dependent random fields.
+        Currently no support for cross-correlated random fields.
+        A set of independent basic random fields must exist
+        other fields can be dependent in deterministic way.
+
+        :param fields: A list of dependent fields.
+
+        Example:
+        rf = SpatialCorrelatedField(log=True)
+        Fields([
+            Field('por_top', rf, regions='ground_0'),
+            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
+            Field('por_bot', rf, regions='ground_1'),
+            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
+            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
+            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
+            ])
+
+        TODO: use topological sort to fix order of 'fields'
+        TODO: syntactic sugar for calculating with fields (like with np.arrays).
+        """
+        self.fields_orig = fields
+        self.fields_dict = {}
+        self.fields = []
+
+        # Have to make a copy of the fields since we want to generate the samples in them
+        # and the given instances of Field can be used by an independent FieldSet instance.
+        for field in self.fields_orig:
+            new_field = copy.copy(field)
+            if new_field.param_fields:
+                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
+            self.fields_dict[new_field.name] = new_field
+            self.fields.append(new_field)
+
+    def _get_field_obj(self, field_name, regions):
+        """
+        Get fields by name, replace constants by constant fields for unification.
+        """
+        if type(field_name) in [float, int]:
+            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
+            self.fields.insert(0, const_field)
+            self.fields_dict[const_field.name] = const_field
+            return const_field
+        else:
+            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
+            return self.fields_dict[field_name]
+
+    @property
+    def names(self):
+        return self.fields_dict.keys()
+
+    # def iterative_dfs(self, graph, start, path=[]):
+    #     q = [start]
+    #     while q:
+    #         v = q.pop(0)
+    #         if v not in path:
+    #             path = path + [v]
+    #             q = graph[v] + q
+    #
+    #     return path
+
+    def set_outer_fields(self, outer):
+        """
+        Set fields that will be in a dictionary produced by FieldSet.sample() call.
+        :param outer: A list of names of fields that are sampled.
+        :return:
+        """
+        outer_set = set(outer)
+        for f in self.fields:
+            if f.name in outer_set:
+                f.is_outer = True
+            else:
+                f.is_outer = False
+
+    def set_points(self, points, region_ids=[], region_map={}):
+        """
+        Set mesh related data to fields.
+        - set points for sample evaluation
+        - translate region names to region ids in fields
+        - create maps from region constraned point sets of fields to full point set
+        :param points: np array of points for field evaluation
+        :param regions: regions of the points;
+               empty means no points for fields restricted to regions and all points for unrestricted fields
+        :return:
+        """
+        self.n_elements = len(points)
+        assert len(points) == len(region_ids)
+        reg_points = {}
+        for i, reg_id in enumerate(region_ids):
+            reg_list = reg_points.get(reg_id, [])
+            reg_list.append(i)
+            reg_points[reg_id] = reg_list
+
+        for field in self.fields:
+            point_ids = []
+            if field.regions:
+                for reg in field.regions:
+                    reg_id = region_map[reg]
+                    point_ids.extend(reg_points.get(reg_id, []))
+                field.set_points(points[point_ids])
+                field.full_sample_ids = point_ids
+            else:
+                field.set_points(points)
+                field.full_sample_ids = np.arange(self.n_elements)
+
+    def sample(self):
+        """
+        Return dictionary of sampled fields.
+        :return: { 'field_name': sample, ...}
+        """
+        result = {}
+        for field in self.fields:
+            sample = field.sample()
+            if field.is_outer:
+                result[field.name] = np.zeros(self.n_elements)
+                result[field.name][field.full_sample_ids] = sample
+        return result
+
+
+class RandomFieldBase:
+    """
+    Base class for various methods for generating random fields.
+
+    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
+    E[F(x)]       = mu(x)
+    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
+
+    We assume stationary random field with covariance matrix Cov_ij:
+        Cov_i,j = c(x_i - x_j)
+    where c(X) is the "stationary covariance" function. We assume:
+          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
+    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
+          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
+
+    where:
+        - sigma(X) is the standard deviance of the single uncorrelated value
+        - K is a positive definite tensor with eigen vectors corresponding to
+          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
+          length in singel main direction.
+        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
+
+    SVD decomposition:
+        Considering first m vectors, such that lam(m)/lam(0) <0.1
+
+    Example:
+    ```
+        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
+        X, Y = np.mgrid[0:1:10j, 0:1:10j]
+        points = np.vstack([X.ravel(), Y.ravel()])
+        field.set_points(points)
+        sample = field.sample()
+
+    ```
+    """
+
+    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
+                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
+        """
+        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
+        :param dim: dimension of the domain (size of point coords)
+        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
+        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
+        :param mu - mu field (currently just a constant)
+        :param sigma - sigma field (currently just a constant)
+
+        TODO:
+        - implement anisotropy in the base class using transformation matrix for the points
+        - use transformation matrix also for the corr_length
+        - replace corr_exp by aux classes for various correlation functions and pass them here
+        - more general set of correlation functions
+        """
+        self.dim = dim
+        self.log = log
+
+        if corr_exp == 'gauss':
+            self.correlation_exponent = 2.0
+        elif corr_exp == 'exp':
+            self.correlation_exponent = 1.0
+        else:
+            self.correlation_exponent = float(corr_exp)
+
+        # TODO: User should prescribe scaling for main axis and their rotation.
+        # From this we should construct the transformation matrix for the points
+        self._corr_length = corr_length
+        if aniso_correlation is None:
+            assert corr_length > np.finfo(float).eps
+            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
+            self._max_corr_length = corr_length
+        else:
+            self.correlation_tensor = aniso_correlation
+            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
+
+        #### Attributes set through `set_points`.
+        self.points = None
+        # Evaluation points of the field.
+        self.mu = mu
+        # Mean in points. Or scalar.
+        self.sigma = sigma
+        # Standard deviance in points. Or scalar.
+
+        self._initialize(**kwargs)  # Implementation dependent initialization.
+
+    def _initialize(self, **kwargs):
+        raise NotImplementedError()
+
+    def set_points(self, points, mu=None, sigma=None):
+        """
+        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
+        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
+        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
+        :return: None
+        """
+        points = np.array(points, dtype=float)
+
+        assert len(points.shape) >= 1
+        assert points.shape[1] == self.dim
+        self.n_points, self.dimension = points.shape
+        self.points = points
+
+        if mu is not None:
+            self.mu = mu
+        self.mu = np.array(self.mu, dtype=float)
+        assert self.mu.shape == () or self.mu.shape == (len(points),)
+
+        if sigma is not None:
+            self.sigma = sigma
+        self.sigma = np.array(self.sigma, dtype=float)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+        self._set_points()
+
+    def _set_points(self):
+        pass
+
+    def sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+               Removed as the spectral method do not support it.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        # if uncorelated is None:
+        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        # else:
+        #     assert uncorelated.shape == (self.n_approx_terms,)
+
+        field = self._sample()
+        field = self.sigma * field + self.mu
+
+        if not self.log:
+            return field
+        return np.exp(field)
+
+    def _sample(self, uncorrelated):
+        raise NotImplementedError()
+
+
+class SpatialCorrelatedField(RandomFieldBase):
+
+    def _initialize(self, **kwargs):
+        """
+        Called after initialization in common constructor.
+        """
+
+        ### Attributes computed in precalculation.
+        self.cov_mat = None
+        # Covariance matrix (dense).
+        self._n_approx_terms = None
+        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
+        self._cov_l_factor = None
+        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
+        self._sqrt_ev = None
+        # (Reduced) square roots of singular values.
+
+    def _set_points(self):
+        self.cov_mat = None
+        self._cov_l_factor = None
+
+    def cov_matrix(self):
+        """
+        Setup dense covariance matrix for given set of points.
+        :return: None.
+        """
+        assert self.points is not None, "Points not set, call set_points."
+
+        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
+        diameter = np.max(np.abs(box[1] - box[0]))
+        self._relative_corr_length = self._max_corr_length / diameter
+
+        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
+        self._sigma_sqr_max = np.max(self.sigma) ** 2
+        n_pt = len(self.points)
+        self.cov_mat = np.empty((n_pt, n_pt))
+        corr_exp = self.correlation_exponent / 2.0
+
+        for i_row in range(n_pt):
+            pt = self.points[i_row]
+            diff_row = self.points - pt
+            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
+            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
+        return self.cov_mat
+
+    def _eigen_value_estimate(self, m):
+        """
+        Estimate of the m-th eigen value of the covariance matrix.
+        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
+        However for small gamma the asimtotics holds just for to big values of 'm'.
+        We rather need to find a semiempricial formula.
+        greater
+        :param m:
+        :return:
+        """
+        assert self.cov_mat is not None
+        d = self.dimension
+        alpha = self.correlation_exponent
+        gamma = self._relative_corr_length
+        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
+
+    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
+        """
+        Does decomposition of covariance matrix defined by set of points
+        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
+        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
+        given precision is snapped to the given interval.
+
+        truncated SVD:
+         cov_mat = U*diag(ev) * V,
+         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
+
+        Note on number of terms:
+        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
+        the eigen values should decay as (Proposition 2.18):
+            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
+        where gamma = correlation length / domain diameter
+        ans alpha is the correlation exponent. Gamma is the gamma function.
+        ... should be checked experimantaly and generalized for sigma(X)
+
+        :return:
+        """
+        if self.cov_mat is None:
+            self.cov_matrix()
+
+        if n_terms_range[0] >= self.n_points:
+            U, ev, VT = np.linalg.svd(self.cov_mat)
+            m = self.n_points
+        else:
+            range = list(n_terms_range)
+            range[0] = max(1, range[0])
+            range[1] = min(self.n_points, range[1])
+
+            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
+            if precision < prec_range[0]:
+                m = range[0]
+            elif precision > prec_range[1]:
+                m = range[1]
+            else:
+                f = lambda m: self._eigen_value_estimate(m) - precision
+                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+
+            m = max(m, range[0])
+            threshold = 2 * precision
+            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
+            while threshold >= precision and m <= range[1]:
+                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
+                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
+                threshold = ev[-1] / ev[0]
+                m = int(np.ceil(1.5 * m))
+
+            m = len(ev)
+            m = min(m, range[1])
+
+        #print("KL approximation: {} for {} points.".format(m, self.n_points))
+        self.n_approx_terms = m
+        self._sqrt_ev = np.sqrt(ev[0:m])
+        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
+        self.cov_mat = None
+        return self._cov_l_factor, ev[0:m]
+
+    def _sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        if self._cov_l_factor is None:
+            self.svd_dcmp()
+        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        return self._cov_l_factor.dot(uncorelated)
+
+
+class GSToolsSpatialCorrelatedField(RandomFieldBase):
+
+    def __init__(self, model, mode_no=1000, log=False, sigma=1):
+        """
+        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
+        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
+        """
+        self.model = model
+        self.mode_no = mode_no
+        self.srf = gstools.SRF(model, mode_no=mode_no)
+        self.mu = self.srf.mean
+        self.sigma = sigma
+        self.dim = model.dim
+        self.log = log
+
+    def change_srf(self, seed):
+        """
+        Spatial random field with new seed
+        :param seed: int, random number generator seed
+        :return: None
+        """
+        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
+
+    def random_field(self):
+        """
+        Generate the spatial random field
+        :return: field, np.ndarray
+        """
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x))
+            field = self.srf((x,))
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            field = self.srf((x, y))
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+            field = self.srf((x, y, z))
+
+        return field
+
+    def sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'
+        """
+        if not self.log:
+            return self.sigma * self.random_field() + self.mu
+        return np.exp(self.sigma * self.random_field() + self.mu)
+
+
+class FourierSpatialCorrelatedField(RandomFieldBase):
+    """
+    Generate spatial random fields
+    """
+
+    def _initialize(self, **kwargs):
+        """
+        Own intialization.
+        :param mode_no: Number of Fourier modes
+        """
+        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
+            DeprecationWarning)
+        self.len_scale = self._corr_length * 2*np.pi
+        self.mode_no = kwargs.get("mode_no", 1000)
+
+    def get_normal_distr(self):
+        """
+        Normal distributed arrays
+        :return: np.ndarray
+        """
+        Z = np.empty((2, self.mode_no))
+        rng = self._get_random_stream()
+        for i in range(2):
+            Z[i] = rng.normal(size=self.mode_no)
+
+        return Z
+
+    def _sample_sphere(self, mode_no):
+        """Uniform sampling on a d-dimensional sphere
+        Parameters
+        ----------
+            mode_no : :class:`int`, optional
+                number of the Fourier modes
+        Returns
+        -------
+            coord : :class:`numpy.ndarray`
+                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
+        """
+        coord = self._create_empty_k(mode_no)
+        if self.dim == 1:
+            rng = self._get_random_stream()
+            ang1 = rng.random_sample(mode_no)
+            coord[0] = 2 * np.around(ang1) - 1
+        elif self.dim == 2:
+            rng = self._get_random_stream()
+            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
+            coord[0] = np.cos(ang1)
+            coord[1] = np.sin(ang1)
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return coord
+
+    def gau(self, mode_no=1000):
+        """
+        Compute a gaussian spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        len_scale = self.len_scale * np.sqrt(np.pi / 4)
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # weibull distribution sampling
+            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def exp(self, mode_no=1000):
+        """
+        Compute an exponential spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k[0] = np.tan(k_u) / self.len_scale
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # sampling with ppf
+            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def _create_empty_k(self, mode_no=None):
+        """ Create empty mode array with the correct shape.
+        Parameters
+        ----------
+            mode_no : :class:`int`
+                number of the fourier modes
+        Returns
+        -------
+            :class:`numpy.ndarray`
+                the empty mode array
+        """
+        if mode_no is None:
+            k = np.empty(self.dim)
+        else:
+            k = np.empty((self.dim, mode_no))
+
+        return k
+
+    def _get_random_stream(self, seed=None):
+        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
+
+    def random_field(self):
+        """
+        Calculates the random modes for the randomization method.
+        """
+        y, z = None, None
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x), 1)
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+
+        normal_distr_values = self.get_normal_distr()
+
+        if self.correlation_exponent == 2:
+            k = self.gau(self.mode_no)
+        else:
+            k = self.exp(self.mode_no)
+
+        # reshape for unstructured grid
+        for dim_i in range(self.dim):
+            k[dim_i] = np.squeeze(k[dim_i])
+            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
+
+        summed_modes = np.broadcast(x, y, z)
+        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
+        # Test to see if enough memory is available.
+        # In case there isn't, divide Fourier modes into smaller chunks
+        chunk_no = 1
+        chunk_no_exp = 0
+
+        while True:
+            try:
+                chunk_len = int(np.ceil(self.mode_no / chunk_no))
+
+                for chunk in range(chunk_no):
+                    a = chunk * chunk_len
+                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
+                    # numpy, use the commented min-function below
+                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
+                    e = (chunk + 1) * chunk_len
+
+                    if self.dim == 1:
+                        phase = k[0, a:e]*x
+                    elif self.dim == 2:
+                        phase = k[0, a:e]*x + k[1, a:e]*y
+                    else:
+                        phase = (k[0, a:e]*x + k[1, a:e]*y +
+                                 k[2, a:e]*z)
+
+                    summed_modes += np.squeeze(
+                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
+                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
+                               axis=-1))
+            except MemoryError:
+                chunk_no += 2**chunk_no_exp
+                chunk_no_exp += 1
+                print('Not enough memory. Dividing Fourier modes into {} '
+                      'chunks.'.format(chunk_no))
+            else:
+                break
+
+        field = np.sqrt(1.0 / self.mode_no) * summed_modes
+        return field
+
+    def _sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        return self.random_field()
+
+        if not self.log:
+            return field
+        return np.exp(field)
-- 
2.43.0


From d0df333f819b82746dd9b09de274081f9bacb453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 29/50] fix: number of KL terms found by bisection

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index e538242..26f6457 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -467,7 +467,7 @@ class SpatialCorrelatedField(RandomFieldBase):
                 m = range[1]
             else:
                 f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5)))
 
             m = max(m, range[0])
             threshold = 2 * precision
-- 
2.43.0


From 891a724b5d44ffc9ec8cff105749d27c06d89739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 30/50] fix: fields based on the same random field keep their
 own points

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 26f6457..5614f51 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -141,6 +141,8 @@ class Fields:
         # and the given instances of Field can be used by an independent FieldSet instance.
         for field in self.fields_orig:
             new_field = copy.copy(field)
+            # The same random field may be used by several fields, each with its own points.
+            new_field.correlated_field = copy.copy(field.correlated_field)
             if new_field.param_fields:
                 new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
             self.fields_dict[new_field.name] = new_field
-- 
2.43.0


From 1bb23d50cc6f7261952aa64295fe7618ef78614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 31/50] fix: random fields of a sample are determined by its
 seed

---
 mlmc/random/correlated_field.py | 6 ++++--
 mlmc/tool/flow_mc.py            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 5614f51..efffad6 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -510,7 +510,7 @@ class GSToolsSpatialCorrelatedField(RandomFieldBase):
         """
         self.model = model
         self.mode_no = mode_no
-        self.srf = gstools.SRF(model, mode_no=mode_no)
+        self.srf = gstools.SRF(model, seed=rand.randint(2 ** 31 - 1), mode_no=mode_no)
         self.mu = self.srf.mean
         self.sigma = sigma
         self.dim = model.dim
@@ -674,7 +674,9 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         return k
 
     def _get_random_stream(self, seed=None):
-        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
+        # Streams without explicit seed follow the global generator, thus are reproducible.
+        stream = rand if seed is None else rand.RandomState(seed)
+        return rand.RandomState(stream.randint(2 ** 16 - 1))
 
     def random_field(self):
         """
diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 09fc12d..50b1d46 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -229,6 +229,10 @@ class FlowSim(Simulation):
         :param seed: random seed, int
         :return: List[fine result, coarse result], both flatten arrays (see mlmc.sim.synth_simulation.calculate())
         """
+        # Set random seed, seed is calculated from sample id, so it is not user defined
+        # It has to precede creation of the fields and their decomposition, these are random as well
+        np.random.seed(seed)
+
         # Init correlation field objects
         fields = create_corr_field(**config['fields_params'])  # correlated_field.Fields instance
         fields.set_outer_fields(config["fields_used_params"])
@@ -251,8 +255,6 @@ class FlowSim(Simulation):
         # Create fields both fine and coarse
         fields = FlowSim.make_fields(fields, fine_mesh_data, coarse_mesh_data)
 
-        # Set random seed, seed is calculated from sample id, so it is not user defined
-        np.random.seed(seed)
         # Generate random samples
         fine_input_sample, coarse_input_sample = FlowSim.generate_random_sample(fields, coarse_step=coarse_step,
                                                                                 n_fine_elements=len(
-- 
2.43.0


From 6dbf7cc9eec3ec140f64fb63e6898a4911370ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 32/50] fix: 1D exponential spectrum

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index efffad6..51262c4 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -641,7 +641,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k_u = rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
             k[0] = np.tan(k_u) / self.len_scale
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
-- 
2.43.0


From 35a30c80d377c5566efa7d90c606362a78ab2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 33/50] fix: fine samples of the synthetic simulation do not
 depend on the level

---
 mlmc/sim/synth_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sim/synth_simulation.py b/mlmc/sim/synth_simulation.py
index 5341721..75910ed 100644
--- a/mlmc/sim/synth_simulation.py
+++ b/mlmc/sim/synth_simulation.py
@@ -116,10 +116,10 @@ class SynthSimulation(Simulation):
             raise Exception("result is nan")
 
         results = []
-        for result in [fine_result, coarse_result]:
+        for result, step in [(fine_result, fine_step), (coarse_result, coarse_step)]:
             quantities = []
             for quantity in quantity_format:
-                if coarse_step == 0:
+                if step == 0:
                     locations = np.array([result for _ in range(len(quantity.locations))])
                 else:
                     locations = np.array([result + i for i in range(len(quantity.locations))])
@@ -270,11 +270,11 @@ class SynthSimulationWorkspace(SynthSimulation):
             raise Exception("result is nan")
 
         results = []
-        for result in [fine_result, coarse_result]:
+        for result, step in [(fine_result, fine_step), (coarse_result, coarse_step)]:
             quantities = []
 
             for quantity in quantity_format:
-                if coarse_step == 0:
+                if step == 0:
                     locations = np.array([result for _ in range(len(quantity.locations))])
                 else:
                     locations = np.array([result + i for i in range(len(quantity.locations))])
-- 
2.43.0


From 2a297109db997e265f5046866461f3433be7f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 34/50] fix: normalization of the density

---
 mlmc/tool/simple_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 77513f6..dd3bf76 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -83,7 +83,7 @@ class SimpleDistribution:
         m0 = sc.integrate.quad(self.density, self.domain[0], self.domain[1])[0]
         if self._verbose:
             print("moment[0]: {} m0: {}".format(moment_0, m0))
-        self.multipliers[0] -= np.log(moment_0)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
-- 
2.43.0


From 590b222c8804445c2e38cfa986dc82bbce02bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:04 +0000
Subject: [PATCH 35/50] fix: cdf of unsorted values

---
 mlmc/tool/distribution.py        | 5 +++--
 mlmc/tool/simple_distribution.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mlmc/tool/distribution.py b/mlmc/tool/distribution.py
index e377607..f0ecc4b 100644
--- a/mlmc/tool/distribution.py
+++ b/mlmc/tool/distribution.py
@@ -195,12 +195,13 @@ class Distribution:
 
     def cdf(self, values):
         values = np.atleast_1d(values)
-        np.sort(values)
         last_x = self.domain[0]
         last_y = 0
         cdf_y = np.empty(len(values))
 
-        for i, val in enumerate(values):
+        # Integrate from the smallest value.
+        for i in np.argsort(values):
+            val = values[i]
             if val <= self.domain[0]:
                 last_y = 0
             elif val >= self.domain[1]:
diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index dd3bf76..18e8305 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -107,12 +107,13 @@ class SimpleDistribution:
 
     def cdf(self, values):
         values = np.atleast_1d(values)
-        np.sort(values)
         last_x = self.domain[0]
         last_y = 0
         cdf_y = np.empty(len(values))
 
-        for i, val in enumerate(values):
+        # Integrate from the smallest value.
+        for i in np.argsort(values):
+            val = values[i]
             if val <= self.domain[0]:
                 last_y = 0
             elif val >= self.domain[1]:
-- 
2.43.0


From d5e21d3f62bb4716ea7bf32f1eebe9baa7360964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:04 +0000
Subject: [PATCH 36/50] fix: fields used by an existing input of the level

---
 mlmc/tool/flow_mc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 50b1d46..19b9191 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -172,6 +172,7 @@ class FlowSim(Simulation):
 
         self.mesh_file = os.path.join(common_files_dir, self.MESH_FILE)
 
+        yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
         if self.clean:
             # Prepare mesh
             geo_file = os.path.join(common_files_dir, self.GEO_FILE)
@@ -179,10 +180,14 @@ class FlowSim(Simulation):
             self._make_mesh(geo_file, self.mesh_file, fine_step)  # Common computational mesh for all samples.
 
             # Prepare main input YAML
-            yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
             shutil.copyfile(self.base_yaml_file, yaml_template)
             yaml_file = os.path.join(common_files_dir, self.YAML_FILE)
             self._substitute_yaml(yaml_template, yaml_file)
+        else:
+            # Existing input is used, determine which fields it needs
+            with open(yaml_template, 'r') as src:
+                text = src.read()
+            self._fields_used_params = [name for name in self._fields.names if '<%s>' % name in text]
 
         # Mesh is extracted because we need number of mesh points to determine task_size parameter (see return value)
         fine_mesh_data = self.extract_mesh(self.mesh_file)
-- 
2.43.0


From 5ceb8dcf57b2d919766c05217284f6719dd07a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:29 +0000
Subject: [PATCH 37/50] fix: names of physical groups survive reading and
 writing

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index c5a3ad3..b62d57d 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -118,7 +118,7 @@ class GmshIO:
 
                 if readmode == 5:
                     if len(columns) == 3:
-                        self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                        self.physical[columns[2].strip('"')] = (int(columns[1]), int(columns[0]))
 
                 if readmode == 4:
                     if len(columns) == 3:
-- 
2.43.0


From 03bb3e2c4edb4f9bbe4e12bf877393486b0aca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:29 +0000
Subject: [PATCH 38/50] fix: element data with many components are not read as
 elements

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index b62d57d..5508acf 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -143,7 +143,7 @@ class GmshIO:
                     except ValueError:
                         print('Node format error: ' + line, ERROR)
                         readmode = 0
-                elif ftype == 0 and readmode > 1 and len(columns) > 5:
+                elif ftype == 0 and readmode in (2, 3) and len(columns) > 5:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 1fb75e7431d4b13e94ab6db0b345e57e254474a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:29 +0000
Subject: [PATCH 39/50] fix: reading of the MSH format 1.0

---
 mlmc/tool/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 5508acf..fae9162 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -81,6 +81,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0   # format 1.0 has no header, always ASCII
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
-- 
2.43.0


From 213a22ad4d2f069713fb6905de74ea6803f9a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:29 +0000
Subject: [PATCH 40/50] fix: write_ascii closes the file it opens

---
 mlmc/tool/gmsh_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index fae9162..2f963ed 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -192,7 +192,8 @@ class GmshIO:
     def write_ascii(self, mshfile=None):
         """Dump the mesh out to a Gmsh 2.0 msh file."""
 
-        if not mshfile:
+        opened = not mshfile
+        if opened:
             mshfile = open(self.filename, 'w')
 
         print('$MeshFormat\n2.2 0 8\n$EndMeshFormat', file=mshfile)
@@ -216,6 +217,8 @@ class GmshIO:
                   ' '.join([str(c) for c in tags]), ' ',
                   ' '.join([str(c) for c in nodes]), sep="", file=mshfile)
         print('$EndElements', file=mshfile)
+        if opened:
+            mshfile.close()
 
     def write_binary(self, filename=None):
         """Dump the mesh out to a Gmsh 2.0 msh file."""
-- 
2.43.0


From 1aecd760f8f9c6ffe186b9d59f892f05bf67c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:30 +0000
Subject: [PATCH 41/50] fix: standard deviation of the 1D Gaussian spectrum of
 Fourier fields

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 51262c4..82867ad 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -619,7 +619,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
+            k[0] = rng.normal(0., np.sqrt(np.pi / 2.0) / len_scale, mode_no)
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
             rng = self._get_random_stream()
-- 
2.43.0


From 4cd071c09feb3f9097c97917edafc81566515812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:29 +0000
Subject: [PATCH 42/50] fix: Fourier field summed twice after running out of
 memory

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 82867ad..d32fb24 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -716,6 +716,8 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         chunk_no_exp = 0
 
         while True:
+            # Drop the chunks summed before running out of memory
+            summed_modes[...] = 0.0
             try:
                 chunk_len = int(np.ceil(self.mode_no / chunk_no))
 
-- 
2.43.0


From bbc3e7e1e29c0275b692de7fe050f3bf36c45e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:11 +0000
Subject: [PATCH 43/50] fix: serial pool leaves the sample workspace

The working directory of the process stayed in the (removed) directory of
the last sample, so a storage or common files given by a relative path
could not be found any more.
---
 mlmc/sampling_pool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 3d7f605..fefc0e0 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -226,8 +226,11 @@ class OneProcessPool(SamplingPool):
         if self._output_dir is None and level_sim.need_sample_workspace:
             self._output_dir = os.getcwd()
 
+        cwd = os.getcwd() if level_sim.need_sample_workspace else None
         sample_id, result, err_msg, running_time = SamplingPool.calculate_sample(sample_id, level_sim,
                                                                                  work_dir=self._output_dir)
+        if cwd is not None:
+            os.chdir(cwd)  # leave the sample workspace
 
         self._process_result(sample_id, result, err_msg, running_time, level_sim)
 
-- 
2.43.0


From 46e3efe3721f1bdf75cc4001db118cff160673ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:11 +0000
Subject: [PATCH 44/50] fix: synthetic samples of different threads do not
 share a generator

The generator was set to the distribution shared by all samples of a level,
samples of ThreadPool then drew from the generators of each other.
---
 mlmc/sim/synth_simulation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mlmc/sim/synth_simulation.py b/mlmc/sim/synth_simulation.py
index 75910ed..0fdaabd 100644
--- a/mlmc/sim/synth_simulation.py
+++ b/mlmc/sim/synth_simulation.py
@@ -82,8 +82,7 @@ class SynthSimulation(Simulation):
         :return: fine sample, coarse sample
         """
         SynthSimulation.len_results += 1
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulation.n_nans / (1e-10 + SynthSimulation.len_results) < SynthSimulation.nan_fraction:
             SynthSimulation.n_nans += 1
@@ -231,8 +230,7 @@ class SynthSimulationWorkspace(SynthSimulation):
         else:
             raise NotImplementedError("Other distributions are not implemented yet")
 
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulationWorkspace.n_nans / (1e-10 + SynthSimulationWorkspace.len_results) < SynthSimulationWorkspace.nan_fraction:
             SynthSimulationWorkspace.n_nans += 1
-- 
2.43.0


From 94d6dc2e11979e6c0b7df58a8ae4d1b0407fbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:21 +0000
Subject: [PATCH 45/50] fix: HDF storage returned an exception object as the
 number of collected samples of an empty level

---
 mlmc/tool/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..810dcae 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -382,7 +382,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From 7763f2f7f75272ba85674c510798c03df875aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:21 +0000
Subject: [PATCH 46/50] fix: memory storage failed to count collected samples
 when a lower level has none

---
 mlmc/sample_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index d1a76e1..2ed9352 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -323,7 +323,7 @@ class Memory(SampleStorage):
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
+        n_collected = list(np.zeros(max(self._results.keys(), default=-1) + 1))
         for level_id in self.get_level_ids():
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
-- 
2.43.0


From 16dbf3a5430e08e5a7a55cc66cb17401dbb9132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:21 +0000
Subject: [PATCH 47/50] fix: sample_pairs failed when a level has no collected
 samples

---
 mlmc/sample_storage.py     | 2 +-
 mlmc/sample_storage_hdf.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 2ed9352..f9b7731 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -247,7 +247,7 @@ class Memory(SampleStorage):
         Sample results split to numpy arrays
         :return: List[Array[M, N, 2]]
         """
-        levels_results = list(np.empty(len(self._results)))
+        levels_results = [[] for _ in range(max(self._results.keys(), default=-1) + 1)]
 
         for level_id in self.get_level_ids():
             results = self.sample_pairs_level(ChunkSpec(level_id=level_id))
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 672e599..09d5b8f 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -156,9 +156,13 @@ class SampleStorageHDF(SampleStorage):
 
         levels_results = list(np.empty(len(self._level_groups)))
 
+        n_collected = self.get_n_collected()
         for level in self._level_groups:
+            if n_collected[int(level.level_id)] == 0:
+                levels_results[int(level.level_id)] = []
+                continue
             chunk_spec = next(self.chunks(level_id=int(level.level_id),
-                                          n_samples=self.get_n_collected()[int(level.level_id)]))
+                                          n_samples=n_collected[int(level.level_id)]))
             results = self.sample_pairs_level(chunk_spec)  # return all samples no chunks
             if results is None or len(results) == 0:
                 levels_results[int(level.level_id)] = []
-- 
2.43.0


From 8177305cc8973e0ead18c10c75b1df9f84bd63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 48/50] fix: restore the line endings of correlated_field.py,
 changed by mistake in b7b1e72

---
 mlmc/random/correlated_field.py | 1524 +++++++++++++++----------------
 1 file changed, 762 insertions(+), 762 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index d32fb24..4332217 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -1,762 +1,762 @@
-import copy
-import numpy as np
-import numpy.linalg as la
-import numpy.random as rand
-import scipy as sp
-from sklearn.utils.extmath import randomized_svd
-import warnings
-warnings.simplefilter('always', DeprecationWarning)
-import gstools
-
-
-def kozeny_carman(porosity, m, factor, viscosity):
-    """
-    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
-    :param porosity: Porosity value.
-    :param m: Power. Suitable values are 1 < m < 4
-    :param factor: [m^2]
-        E.g. 1e-7 ,   m = 3.48;  juta fibers
-             2.2e-8 ,     1.46;  glass fibers
-             1.8e-13,     2.89;  erruptive material
-             1e-12        2.76;  erruptive material
-             1.8e-12      1.99;  basalt
-    :param viscosity: [Pa . s], water: 8.90e-4
-    :return:
-    """
-    assert np.all(viscosity > 1e-10)
-    porosity = np.minimum(porosity, 1-1e-10)
-    porosity = np.maximum(porosity, 1e-10)
-    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
-    cond = np.maximum(cond, 1e-15)
-    return cond
-
-
-def positive_to_range(exp, a, b):
-    """
-    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
-    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
-    :param exp: A positive parameter. (LogNormal distribution.)
-    :param a, b: Range interval.
-    """
-    return b * (1 - (b - a) / (b + (b - a) * exp))
-
-
-class Field:
-    def __init__(self, name, field=None, param_fields=[], regions=[]):
-        """
-        :param name: Name of the field.
-        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
-               for evaluation of the field from its param_fields.
-        :param regions: Domain where field is sampled.
-        :param param_fields: List of names of parameter fields, dependees.
-        TODO: consider three different derived classes for: const, random and func fields.
-        """
-        self.correlated_field = None
-        self.const = None
-        self._func = field
-        self.is_outer = True
-
-        if type(regions) is str:
-            regions = [regions]
-        self.name = name
-        if type(field) in [float, int]:
-            self.const = field
-            assert len(param_fields) == 0
-        elif isinstance(field, RandomFieldBase):
-            self.correlated_field = field
-            assert len(param_fields) == 0
-        else:
-            assert len(param_fields) > 0, field
-
-            # check callable
-            try:
-                params = [np.ones(2) for i in range(len(param_fields))]
-                field(*params)
-            except:
-                raise Exception("Invalid field function for field: {}".format(name))
-            self._func = field
-
-        self.regions = regions
-        self.param_fields = param_fields
-
-    def set_points(self, points):
-        """
-        Internal method to set evaluation points. See Fields.set_points.
-        """
-        if self.const is not None:
-            self._sample = self.const * np.ones(len(points))
-        elif self.correlated_field is not None:
-            self.correlated_field.set_points(points)
-            if type(self.correlated_field) is  SpatialCorrelatedField:
-                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
-                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
-        else:
-            pass
-
-    def sample(self):
-        """
-        Internal method to generate/compute new sample.
-        :return:
-        """
-        if self.const is not None:
-            return self._sample
-        elif self.correlated_field is not None:
-            self._sample = self.correlated_field.sample()
-        else:
-            params = [ pf._sample for pf in self.param_fields]
-            self._sample = self._func(*params)
-        return self._sample
-
-
-class Fields:
-
-    def __init__(self, fields):
-        """
-        Creates a new set of cross dependent random fields.
-        Currently no support for cross-correlated random fields.
-        A set of independent basic random fields must exist
-        other fields can be dependent in deterministic way.
-
-        :param fields: A list of dependent fields.
-
-        Example:
-        rf = SpatialCorrelatedField(log=True)
-        Fields([
-            Field('por_top', rf, regions='ground_0'),
-            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
-            Field('por_bot', rf, regions='ground_1'),
-            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
-            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
-            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
-            ])
-
-        TODO: use topological sort to fix order of 'fields'
-        TODO: syntactic sugar for calculating with fields (like with np.arrays).
-        """
-        self.fields_orig = fields
-        self.fields_dict = {}
-        self.fields = []
-
-        # Have to make a copy of the fields since we want to generate the samples in them
-        # and the given instances of Field can be used by an independent FieldSet instance.
-        for field in self.fields_orig:
-            new_field = copy.copy(field)
-            # The same random field may be used by several fields, each with its own points.
-            new_field.correlated_field = copy.copy(field.correlated_field)
-            if new_field.param_fields:
-                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
-            self.fields_dict[new_field.name] = new_field
-            self.fields.append(new_field)
-
-    def _get_field_obj(self, field_name, regions):
-        """
-        Get fields by name, replace constants by constant fields for unification.
-        """
-        if type(field_name) in [float, int]:
-            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
-            self.fields.insert(0, const_field)
-            self.fields_dict[const_field.name] = const_field
-            return const_field
-        else:
-            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
-            return self.fields_dict[field_name]
-
-    @property
-    def names(self):
-        return self.fields_dict.keys()
-
-    # def iterative_dfs(self, graph, start, path=[]):
-    #     q = [start]
-    #     while q:
-    #         v = q.pop(0)
-    #         if v not in path:
-    #             path = path + [v]
-    #             q = graph[v] + q
-    #
-    #     return path
-
-    def set_outer_fields(self, outer):
-        """
-        Set fields that will be in a dictionary produced by FieldSet.sample() call.
-        :param outer: A list of names of fields that are sampled.
-        :return:
-        """
-        outer_set = set(outer)
-        for f in self.fields:
-            if f.name in outer_set:
-                f.is_outer = True
-            else:
-                f.is_outer = False
-
-    def set_points(self, points, region_ids=[], region_map={}):
-        """
-        Set mesh related data to fields.
-        - set points for sample evaluation
-        - translate region names to region ids in fields
-        - create maps from region constraned point sets of fields to full point set
-        :param points: np array of points for field evaluation
-        :param regions: regions of the points;
-               empty means no points for fields restricted to regions and all points for unrestricted fields
-        :return:
-        """
-        self.n_elements = len(points)
-        assert len(points) == len(region_ids)
-        reg_points = {}
-        for i, reg_id in enumerate(region_ids):
-            reg_list = reg_points.get(reg_id, [])
-            reg_list.append(i)
-            reg_points[reg_id] = reg_list
-
-        for field in self.fields:
-            point_ids = []
-            if field.regions:
-                for reg in field.regions:
-                    reg_id = region_map[reg]
-                    point_ids.extend(reg_points.get(reg_id, []))
-                field.set_points(points[point_ids])
-                field.full_sample_ids = point_ids
-            else:
-                field.set_points(points)
-                field.full_sample_ids = np.arange(self.n_elements)
-
-    def sample(self):
-        """
-        Return dictionary of sampled fields.
-        :return: { 'field_name': sample, ...}
-        """
-        result = {}
-        for field in self.fields:
-            sample = field.sample()
-            if field.is_outer:
-                result[field.name] = np.zeros(self.n_elements)
-                result[field.name][field.full_sample_ids] = sample
-        return result
-
-
-class RandomFieldBase:
-    """
-    Base class for various methods for generating random fields.
-
-    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
-    E[F(x)]       = mu(x)
-    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
-
-    We assume stationary random field with covariance matrix Cov_ij:
-        Cov_i,j = c(x_i - x_j)
-    where c(X) is the "stationary covariance" function. We assume:
-          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
-    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
-          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
-
-    where:
-        - sigma(X) is the standard deviance of the single uncorrelated value
-        - K is a positive definite tensor with eigen vectors corresponding to
-          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
-          length in singel main direction.
-        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
-
-    SVD decomposition:
-        Considering first m vectors, such that lam(m)/lam(0) <0.1
-
-    Example:
-    ```
-        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
-        X, Y = np.mgrid[0:1:10j, 0:1:10j]
-        points = np.vstack([X.ravel(), Y.ravel()])
-        field.set_points(points)
-        sample = field.sample()
-
-    ```
-    """
-
-    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
-                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
-        """
-        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
-        :param dim: dimension of the domain (size of point coords)
-        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
-        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
-        :param mu - mu field (currently just a constant)
-        :param sigma - sigma field (currently just a constant)
-
-        TODO:
-        - implement anisotropy in the base class using transformation matrix for the points
-        - use transformation matrix also for the corr_length
-        - replace corr_exp by aux classes for various correlation functions and pass them here
-        - more general set of correlation functions
-        """
-        self.dim = dim
-        self.log = log
-
-        if corr_exp == 'gauss':
-            self.correlation_exponent = 2.0
-        elif corr_exp == 'exp':
-            self.correlation_exponent = 1.0
-        else:
-            self.correlation_exponent = float(corr_exp)
-
-        # TODO: User should prescribe scaling for main axis and their rotation.
-        # From this we should construct the transformation matrix for the points
-        self._corr_length = corr_length
-        if aniso_correlation is None:
-            assert corr_length > np.finfo(float).eps
-            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
-            self._max_corr_length = corr_length
-        else:
-            self.correlation_tensor = aniso_correlation
-            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
-
-        #### Attributes set through `set_points`.
-        self.points = None
-        # Evaluation points of the field.
-        self.mu = mu
-        # Mean in points. Or scalar.
-        self.sigma = sigma
-        # Standard deviance in points. Or scalar.
-
-        self._initialize(**kwargs)  # Implementation dependent initialization.
-
-    def _initialize(self, **kwargs):
-        raise NotImplementedError()
-
-    def set_points(self, points, mu=None, sigma=None):
-        """
-        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
-        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
-        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
-        :return: None
-        """
-        points = np.array(points, dtype=float)
-
-        assert len(points.shape) >= 1
-        assert points.shape[1] == self.dim
-        self.n_points, self.dimension = points.shape
-        self.points = points
-
-        if mu is not None:
-            self.mu = mu
-        self.mu = np.array(self.mu, dtype=float)
-        assert self.mu.shape == () or self.mu.shape == (len(points),)
-
-        if sigma is not None:
-            self.sigma = sigma
-        self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
-        self._set_points()
-
-    def _set_points(self):
-        pass
-
-    def sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-               Removed as the spectral method do not support it.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        # if uncorelated is None:
-        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        # else:
-        #     assert uncorelated.shape == (self.n_approx_terms,)
-
-        field = self._sample()
-        field = self.sigma * field + self.mu
-
-        if not self.log:
-            return field
-        return np.exp(field)
-
-    def _sample(self, uncorrelated):
-        raise NotImplementedError()
-
-
-class SpatialCorrelatedField(RandomFieldBase):
-
-    def _initialize(self, **kwargs):
-        """
-        Called after initialization in common constructor.
-        """
-
-        ### Attributes computed in precalculation.
-        self.cov_mat = None
-        # Covariance matrix (dense).
-        self._n_approx_terms = None
-        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
-        self._cov_l_factor = None
-        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
-        self._sqrt_ev = None
-        # (Reduced) square roots of singular values.
-
-    def _set_points(self):
-        self.cov_mat = None
-        self._cov_l_factor = None
-
-    def cov_matrix(self):
-        """
-        Setup dense covariance matrix for given set of points.
-        :return: None.
-        """
-        assert self.points is not None, "Points not set, call set_points."
-
-        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
-        diameter = np.max(np.abs(box[1] - box[0]))
-        self._relative_corr_length = self._max_corr_length / diameter
-
-        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
-        self._sigma_sqr_max = np.max(self.sigma) ** 2
-        n_pt = len(self.points)
-        self.cov_mat = np.empty((n_pt, n_pt))
-        corr_exp = self.correlation_exponent / 2.0
-
-        for i_row in range(n_pt):
-            pt = self.points[i_row]
-            diff_row = self.points - pt
-            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
-            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
-        return self.cov_mat
-
-    def _eigen_value_estimate(self, m):
-        """
-        Estimate of the m-th eigen value of the covariance matrix.
-        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
-        However for small gamma the asimtotics holds just for to big values of 'm'.
-        We rather need to find a semiempricial formula.
-        greater
-        :param m:
-        :return:
-        """
-        assert self.cov_mat is not None
-        d = self.dimension
-        alpha = self.correlation_exponent
-        gamma = self._relative_corr_length
-        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
-
-    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
-        """
-        Does decomposition of covariance matrix defined by set of points
-        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
-        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
-        given precision is snapped to the given interval.
-
-        truncated SVD:
-         cov_mat = U*diag(ev) * V,
-         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
-
-        Note on number of terms:
-        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
-        the eigen values should decay as (Proposition 2.18):
-            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
-        where gamma = correlation length / domain diameter
-        ans alpha is the correlation exponent. Gamma is the gamma function.
-        ... should be checked experimantaly and generalized for sigma(X)
-
-        :return:
-        """
-        if self.cov_mat is None:
-            self.cov_matrix()
-
-        if n_terms_range[0] >= self.n_points:
-            U, ev, VT = np.linalg.svd(self.cov_mat)
-            m = self.n_points
-        else:
-            range = list(n_terms_range)
-            range[0] = max(1, range[0])
-            range[1] = min(self.n_points, range[1])
-
-            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
-            if precision < prec_range[0]:
-                m = range[0]
-            elif precision > prec_range[1]:
-                m = range[1]
-            else:
-                f = lambda m: self._eigen_value_estimate(m) - precision
-                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5)))
-
-            m = max(m, range[0])
-            threshold = 2 * precision
-            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
-            while threshold >= precision and m <= range[1]:
-                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
-                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
-                threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
-
-            m = len(ev)
-            m = min(m, range[1])
-
-        #print("KL approximation: {} for {} points.".format(m, self.n_points))
-        self.n_approx_terms = m
-        self._sqrt_ev = np.sqrt(ev[0:m])
-        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
-        self.cov_mat = None
-        return self._cov_l_factor, ev[0:m]
-
-    def _sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        if self._cov_l_factor is None:
-            self.svd_dcmp()
-        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        return self._cov_l_factor.dot(uncorelated)
-
-
-class GSToolsSpatialCorrelatedField(RandomFieldBase):
-
-    def __init__(self, model, mode_no=1000, log=False, sigma=1):
-        """
-        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
-        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
-        """
-        self.model = model
-        self.mode_no = mode_no
-        self.srf = gstools.SRF(model, seed=rand.randint(2 ** 31 - 1), mode_no=mode_no)
-        self.mu = self.srf.mean
-        self.sigma = sigma
-        self.dim = model.dim
-        self.log = log
-
-    def change_srf(self, seed):
-        """
-        Spatial random field with new seed
-        :param seed: int, random number generator seed
-        :return: None
-        """
-        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
-
-    def random_field(self):
-        """
-        Generate the spatial random field
-        :return: field, np.ndarray
-        """
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x))
-            field = self.srf((x,))
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            field = self.srf((x, y))
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-            field = self.srf((x, y, z))
-
-        return field
-
-    def sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'
-        """
-        if not self.log:
-            return self.sigma * self.random_field() + self.mu
-        return np.exp(self.sigma * self.random_field() + self.mu)
-
-
-class FourierSpatialCorrelatedField(RandomFieldBase):
-    """
-    Generate spatial random fields
-    """
-
-    def _initialize(self, **kwargs):
-        """
-        Own intialization.
-        :param mode_no: Number of Fourier modes
-        """
-        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
-            DeprecationWarning)
-        self.len_scale = self._corr_length * 2*np.pi
-        self.mode_no = kwargs.get("mode_no", 1000)
-
-    def get_normal_distr(self):
-        """
-        Normal distributed arrays
-        :return: np.ndarray
-        """
-        Z = np.empty((2, self.mode_no))
-        rng = self._get_random_stream()
-        for i in range(2):
-            Z[i] = rng.normal(size=self.mode_no)
-
-        return Z
-
-    def _sample_sphere(self, mode_no):
-        """Uniform sampling on a d-dimensional sphere
-        Parameters
-        ----------
-            mode_no : :class:`int`, optional
-                number of the Fourier modes
-        Returns
-        -------
-            coord : :class:`numpy.ndarray`
-                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
-        """
-        coord = self._create_empty_k(mode_no)
-        if self.dim == 1:
-            rng = self._get_random_stream()
-            ang1 = rng.random_sample(mode_no)
-            coord[0] = 2 * np.around(ang1) - 1
-        elif self.dim == 2:
-            rng = self._get_random_stream()
-            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
-            coord[0] = np.cos(ang1)
-            coord[1] = np.sin(ang1)
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return coord
-
-    def gau(self, mode_no=1000):
-        """
-        Compute a gaussian spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        len_scale = self.len_scale * np.sqrt(np.pi / 4)
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.sqrt(np.pi / 2.0) / len_scale, mode_no)
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # weibull distribution sampling
-            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def exp(self, mode_no=1000):
-        """
-        Compute an exponential spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k_u = rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
-            k[0] = np.tan(k_u) / self.len_scale
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # sampling with ppf
-            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def _create_empty_k(self, mode_no=None):
-        """ Create empty mode array with the correct shape.
-        Parameters
-        ----------
-            mode_no : :class:`int`
-                number of the fourier modes
-        Returns
-        -------
-            :class:`numpy.ndarray`
-                the empty mode array
-        """
-        if mode_no is None:
-            k = np.empty(self.dim)
-        else:
-            k = np.empty((self.dim, mode_no))
-
-        return k
-
-    def _get_random_stream(self, seed=None):
-        # Streams without explicit seed follow the global generator, thus are reproducible.
-        stream = rand if seed is None else rand.RandomState(seed)
-        return rand.RandomState(stream.randint(2 ** 16 - 1))
-
-    def random_field(self):
-        """
-        Calculates the random modes for the randomization method.
-        """
-        y, z = None, None
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x), 1)
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-
-        normal_distr_values = self.get_normal_distr()
-
-        if self.correlation_exponent == 2:
-            k = self.gau(self.mode_no)
-        else:
-            k = self.exp(self.mode_no)
-
-        # reshape for unstructured grid
-        for dim_i in range(self.dim):
-            k[dim_i] = np.squeeze(k[dim_i])
-            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
-
-        summed_modes = np.broadcast(x, y, z)
-        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
-        # Test to see if enough memory is available.
-        # In case there isn't, divide Fourier modes into smaller chunks
-        chunk_no = 1
-        chunk_no_exp = 0
-
-        while True:
-            # Drop the chunks summed before running out of memory
-            summed_modes[...] = 0.0
-            try:
-                chunk_len = int(np.ceil(self.mode_no / chunk_no))
-
-                for chunk in range(chunk_no):
-                    a = chunk * chunk_len
-                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
-                    # numpy, use the commented min-function below
-                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
-                    e = (chunk + 1) * chunk_len
-
-                    if self.dim == 1:
-                        phase = k[0, a:e]*x
-                    elif self.dim == 2:
-                        phase = k[0, a:e]*x + k[1, a:e]*y
-                    else:
-                        phase = (k[0, a:e]*x + k[1, a:e]*y +
-                                 k[2, a:e]*z)
-
-                    summed_modes += np.squeeze(
-                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
-                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
-                               axis=-1))
-            except MemoryError:
-                chunk_no += 2**chunk_no_exp
-                chunk_no_exp += 1
-                print('Not enough memory. Dividing Fourier modes into {} '
-                      'chunks.'.format(chunk_no))
-            else:
-                break
-
-        field = np.sqrt(1.0 / self.mode_no) * summed_modes
-        return field
-
-    def _sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        return self.random_field()
-
-        if not self.log:
-            return field
-        return np.exp(field)
+import copy
+import numpy as np
+import numpy.linalg as la
+import numpy.random as rand
+import scipy as sp
+from sklearn.utils.extmath import randomized_svd
+import warnings
+warnings.simplefilter('always', DeprecationWarning)
+import gstools
+
+
+def kozeny_carman(porosity, m, factor, viscosity):
+    """
+    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
+    :param porosity: Porosity value.
+    :param m: Power. Suitable values are 1 < m < 4
+    :param factor: [m^2]
+        E.g. 1e-7 ,   m = 3.48;  juta fibers
+             2.2e-8 ,     1.46;  glass fibers
+             1.8e-13,     2.89;  erruptive material
+             1e-12        2.76;  erruptive material
+             1.8e-12      1.99;  basalt
+    :param viscosity: [Pa . s], water: 8.90e-4
+    :return:
+    """
+    assert np.all(viscosity > 1e-10)
+    porosity = np.minimum(porosity, 1-1e-10)
+    porosity = np.maximum(porosity, 1e-10)
+    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
+    cond = np.maximum(cond, 1e-15)
+    return cond
+
+
+def positive_to_range(exp, a, b):
+    """
+    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
+    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
+    :param exp: A positive parameter. (LogNormal distribution.)
+    :param a, b: Range interval.
+    """
+    return b * (1 - (b - a) / (b + (b - a) * exp))
+
+
+class Field:
+    def __init__(self, name, field=None, param_fields=[], regions=[]):
+        """
+        :param name: Name of the field.
+        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
+               for evaluation of the field from its param_fields.
+        :param regions: Domain where field is sampled.
+        :param param_fields: List of names of parameter fields, dependees.
+        TODO: consider three different derived classes for: const, random and func fields.
+        """
+        self.correlated_field = None
+        self.const = None
+        self._func = field
+        self.is_outer = True
+
+        if type(regions) is str:
+            regions = [regions]
+        self.name = name
+        if type(field) in [float, int]:
+            self.const = field
+            assert len(param_fields) == 0
+        elif isinstance(field, RandomFieldBase):
+            self.correlated_field = field
+            assert len(param_fields) == 0
+        else:
+            assert len(param_fields) > 0, field
+
+            # check callable
+            try:
+                params = [np.ones(2) for i in range(len(param_fields))]
+                field(*params)
+            except:
+                raise Exception("Invalid field function for field: {}".format(name))
+            self._func = field
+
+        self.regions = regions
+        self.param_fields = param_fields
+
+    def set_points(self, points):
+        """
+        Internal method to set evaluation points. See Fields.set_points.
+        """
+        if self.const is not None:
+            self._sample = self.const * np.ones(len(points))
+        elif self.correlated_field is not None:
+            self.correlated_field.set_points(points)
+            if type(self.correlated_field) is  SpatialCorrelatedField:
+                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
+                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
+        else:
+            pass
+
+    def sample(self):
+        """
+        Internal method to generate/compute new sample.
+        :return:
+        """
+        if self.const is not None:
+            return self._sample
+        elif self.correlated_field is not None:
+            self._sample = self.correlated_field.sample()
+        else:
+            params = [ pf._sample for pf in self.param_fields]
+            self._sample = self._func(*params)
+        return self._sample
+
+
+class Fields:
+
+    def __init__(self, fields):
+        """
+        Creates a new set of cross dependent random fields.
+        Currently no support for cross-correlated random fields.
+        A set of independent basic random fields must exist
+        other fields can be dependent in deterministic way.
+
+        :param fields: A list of dependent fields.
+
+        Example:
+        rf = SpatialCorrelatedField(log=True)
+        Fields([
+            Field('por_top', rf, regions='ground_0'),
+            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
+            Field('por_bot', rf, regions='ground_1'),
+            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
+            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
+            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
+            ])
+
+        TODO: use topological sort to fix order of 'fields'
+        TODO: syntactic sugar for calculating with fields (like with np.arrays).
+        """
+        self.fields_orig = fields
+        self.fields_dict = {}
+        self.fields = []
+
+        # Have to make a copy of the fields since we want to generate the samples in them
+        # and the given instances of Field can be used by an independent FieldSet instance.
+        for field in self.fields_orig:
+            new_field = copy.copy(field)
+            # The same random field may be used by several fields, each with its own points.
+            new_field.correlated_field = copy.copy(field.correlated_field)
+            if new_field.param_fields:
+                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
+            self.fields_dict[new_field.name] = new_field
+            self.fields.append(new_field)
+
+    def _get_field_obj(self, field_name, regions):
+        """
+        Get fields by name, replace constants by constant fields for unification.
+        """
+        if type(field_name) in [float, int]:
+            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
+            self.fields.insert(0, const_field)
+            self.fields_dict[const_field.name] = const_field
+            return const_field
+        else:
+            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
+            return self.fields_dict[field_name]
+
+    @property
+    def names(self):
+        return self.fields_dict.keys()
+
+    # def iterative_dfs(self, graph, start, path=[]):
+    #     q = [start]
+    #     while q:
+    #         v = q.pop(0)
+    #         if v not in path:
+    #             path = path + [v]
+    #             q = graph[v] + q
+    #
+    #     return path
+
+    def set_outer_fields(self, outer):
+        """
+        Set fields that will be in a dictionary produced by FieldSet.sample() call.
+        :param outer: A list of names of fields that are sampled.
+        :return:
+        """
+        outer_set = set(outer)
+        for f in self.fields:
+            if f.name in outer_set:
+                f.is_outer = True
+            else:
+                f.is_outer = False
+
+    def set_points(self, points, region_ids=[], region_map={}):
+        """
+        Set mesh related data to fields.
+        - set points for sample evaluation
+        - translate region names to region ids in fields
+        - create maps from region constraned point sets of fields to full point set
+        :param points: np array of points for field evaluation
+        :param regions: regions of the points;
+               empty means no points for fields restricted to regions and all points for unrestricted fields
+        :return:
+        """
+        self.n_elements = len(points)
+        assert len(points) == len(region_ids)
+        reg_points = {}
+        for i, reg_id in enumerate(region_ids):
+            reg_list = reg_points.get(reg_id, [])
+            reg_list.append(i)
+            reg_points[reg_id] = reg_list
+
+        for field in self.fields:
+            point_ids = []
+            if field.regions:
+                for reg in field.regions:
+                    reg_id = region_map[reg]
+                    point_ids.extend(reg_points.get(reg_id, []))
+                field.set_points(points[point_ids])
+                field.full_sample_ids = point_ids
+            else:
+                field.set_points(points)
+                field.full_sample_ids = np.arange(self.n_elements)
+
+    def sample(self):
+        """
+        Return dictionary of sampled fields.
+        :return: { 'field_name': sample, ...}
+        """
+        result = {}
+        for field in self.fields:
+            sample = field.sample()
+            if field.is_outer:
+                result[field.name] = np.zeros(self.n_elements)
+                result[field.name][field.full_sample_ids] = sample
+        return result
+
+
+class RandomFieldBase:
+    """
+    Base class for various methods for generating random fields.
+
+    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
+    E[F(x)]       = mu(x)
+    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
+
+    We assume stationary random field with covariance matrix Cov_ij:
+        Cov_i,j = c(x_i - x_j)
+    where c(X) is the "stationary covariance" function. We assume:
+          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
+    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
+          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
+
+    where:
+        - sigma(X) is the standard deviance of the single uncorrelated value
+        - K is a positive definite tensor with eigen vectors corresponding to
+          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
+          length in singel main direction.
+        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
+
+    SVD decomposition:
+        Considering first m vectors, such that lam(m)/lam(0) <0.1
+
+    Example:
+    ```
+        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
+        X, Y = np.mgrid[0:1:10j, 0:1:10j]
+        points = np.vstack([X.ravel(), Y.ravel()])
+        field.set_points(points)
+        sample = field.sample()
+
+    ```
+    """
+
+    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
+                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
+        """
+        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
+        :param dim: dimension of the domain (size of point coords)
+        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
+        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
+        :param mu - mu field (currently just a constant)
+        :param sigma - sigma field (currently just a constant)
+
+        TODO:
+        - implement anisotropy in the base class using transformation matrix for the points
+        - use transformation matrix also for the corr_length
+        - replace corr_exp by aux classes for various correlation functions and pass them here
+        - more general set of correlation functions
+        """
+        self.dim = dim
+        self.log = log
+
+        if corr_exp == 'gauss':
+            self.correlation_exponent = 2.0
+        elif corr_exp == 'exp':
+            self.correlation_exponent = 1.0
+        else:
+            self.correlation_exponent = float(corr_exp)
+
+        # TODO: User should prescribe scaling for main axis and their rotation.
+        # From this we should construct the transformation matrix for the points
+        self._corr_length = corr_length
+        if aniso_correlation is None:
+            assert corr_length > np.finfo(float).eps
+            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
+            self._max_corr_length = corr_length
+        else:
+            self.correlation_tensor = aniso_correlation
+            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
+
+        #### Attributes set through `set_points`.
+        self.points = None
+        # Evaluation points of the field.
+        self.mu = mu
+        # Mean in points. Or scalar.
+        self.sigma = sigma
+        # Standard deviance in points. Or scalar.
+
+        self._initialize(**kwargs)  # Implementation dependent initialization.
+
+    def _initialize(self, **kwargs):
+        raise NotImplementedError()
+
+    def set_points(self, points, mu=None, sigma=None):
+        """
+        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
+        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
+        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
+        :return: None
+        """
+        points = np.array(points, dtype=float)
+
+        assert len(points.shape) >= 1
+        assert points.shape[1] == self.dim
+        self.n_points, self.dimension = points.shape
+        self.points = points
+
+        if mu is not None:
+            self.mu = mu
+        self.mu = np.array(self.mu, dtype=float)
+        assert self.mu.shape == () or self.mu.shape == (len(points),)
+
+        if sigma is not None:
+            self.sigma = sigma
+        self.sigma = np.array(self.sigma, dtype=float)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+        self._set_points()
+
+    def _set_points(self):
+        pass
+
+    def sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+               Removed as the spectral method do not support it.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        # if uncorelated is None:
+        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        # else:
+        #     assert uncorelated.shape == (self.n_approx_terms,)
+
+        field = self._sample()
+        field = self.sigma * field + self.mu
+
+        if not self.log:
+            return field
+        return np.exp(field)
+
+    def _sample(self, uncorrelated):
+        raise NotImplementedError()
+
+
+class SpatialCorrelatedField(RandomFieldBase):
+
+    def _initialize(self, **kwargs):
+        """
+        Called after initialization in common constructor.
+        """
+
+        ### Attributes computed in precalculation.
+        self.cov_mat = None
+        # Covariance matrix (dense).
+        self._n_approx_terms = None
+        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
+        self._cov_l_factor = None
+        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
+        self._sqrt_ev = None
+        # (Reduced) square roots of singular values.
+
+    def _set_points(self):
+        self.cov_mat = None
+        self._cov_l_factor = None
+
+    def cov_matrix(self):
+        """
+        Setup dense covariance matrix for given set of points.
+        :return: None.
+        """
+        assert self.points is not None, "Points not set, call set_points."
+
+        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
+        diameter = np.max(np.abs(box[1] - box[0]))
+        self._relative_corr_length = self._max_corr_length / diameter
+
+        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
+        self._sigma_sqr_max = np.max(self.sigma) ** 2
+        n_pt = len(self.points)
+        self.cov_mat = np.empty((n_pt, n_pt))
+        corr_exp = self.correlation_exponent / 2.0
+
+        for i_row in range(n_pt):
+            pt = self.points[i_row]
+            diff_row = self.points - pt
+            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
+            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
+        return self.cov_mat
+
+    def _eigen_value_estimate(self, m):
+        """
+        Estimate of the m-th eigen value of the covariance matrix.
+        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
+        However for small gamma the asimtotics holds just for to big values of 'm'.
+        We rather need to find a semiempricial formula.
+        greater
+        :param m:
+        :return:
+        """
+        assert self.cov_mat is not None
+        d = self.dimension
+        alpha = self.correlation_exponent
+        gamma = self._relative_corr_length
+        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
+
+    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
+        """
+        Does decomposition of covariance matrix defined by set of points
+        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
+        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
+        given precision is snapped to the given interval.
+
+        truncated SVD:
+         cov_mat = U*diag(ev) * V,
+         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
+
+        Note on number of terms:
+        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
+        the eigen values should decay as (Proposition 2.18):
+            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
+        where gamma = correlation length / domain diameter
+        ans alpha is the correlation exponent. Gamma is the gamma function.
+        ... should be checked experimantaly and generalized for sigma(X)
+
+        :return:
+        """
+        if self.cov_mat is None:
+            self.cov_matrix()
+
+        if n_terms_range[0] >= self.n_points:
+            U, ev, VT = np.linalg.svd(self.cov_mat)
+            m = self.n_points
+        else:
+            range = list(n_terms_range)
+            range[0] = max(1, range[0])
+            range[1] = min(self.n_points, range[1])
+
+            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
+            if precision < prec_range[0]:
+                m = range[0]
+            elif precision > prec_range[1]:
+                m = range[1]
+            else:
+                f = lambda m: self._eigen_value_estimate(m) - precision
+                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5)))
+
+            m = max(m, range[0])
+            threshold = 2 * precision
+            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
+            while threshold >= precision and m <= range[1]:
+                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
+                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
+                threshold = ev[-1] / ev[0]
+                m = int(np.ceil(1.5 * m))
+
+            m = len(ev)
+            m = min(m, range[1])
+
+        #print("KL approximation: {} for {} points.".format(m, self.n_points))
+        self.n_approx_terms = m
+        self._sqrt_ev = np.sqrt(ev[0:m])
+        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
+        self.cov_mat = None
+        return self._cov_l_factor, ev[0:m]
+
+    def _sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        if self._cov_l_factor is None:
+            self.svd_dcmp()
+        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        return self._cov_l_factor.dot(uncorelated)
+
+
+class GSToolsSpatialCorrelatedField(RandomFieldBase):
+
+    def __init__(self, model, mode_no=1000, log=False, sigma=1):
+        """
+        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
+        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
+        """
+        self.model = model
+        self.mode_no = mode_no
+        self.srf = gstools.SRF(model, seed=rand.randint(2 ** 31 - 1), mode_no=mode_no)
+        self.mu = self.srf.mean
+        self.sigma = sigma
+        self.dim = model.dim
+        self.log = log
+
+    def change_srf(self, seed):
+        """
+        Spatial random field with new seed
+        :param seed: int, random number generator seed
+        :return: None
+        """
+        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
+
+    def random_field(self):
+        """
+        Generate the spatial random field
+        :return: field, np.ndarray
+        """
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x))
+            field = self.srf((x,))
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            field = self.srf((x, y))
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+            field = self.srf((x, y, z))
+
+        return field
+
+    def sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'
+        """
+        if not self.log:
+            return self.sigma * self.random_field() + self.mu
+        return np.exp(self.sigma * self.random_field() + self.mu)
+
+
+class FourierSpatialCorrelatedField(RandomFieldBase):
+    """
+    Generate spatial random fields
+    """
+
+    def _initialize(self, **kwargs):
+        """
+        Own intialization.
+        :param mode_no: Number of Fourier modes
+        """
+        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
+            DeprecationWarning)
+        self.len_scale = self._corr_length * 2*np.pi
+        self.mode_no = kwargs.get("mode_no", 1000)
+
+    def get_normal_distr(self):
+        """
+        Normal distributed arrays
+        :return: np.ndarray
+        """
+        Z = np.empty((2, self.mode_no))
+        rng = self._get_random_stream()
+        for i in range(2):
+            Z[i] = rng.normal(size=self.mode_no)
+
+        return Z
+
+    def _sample_sphere(self, mode_no):
+        """Uniform sampling on a d-dimensional sphere
+        Parameters
+        ----------
+            mode_no : :class:`int`, optional
+                number of the Fourier modes
+        Returns
+        -------
+            coord : :class:`numpy.ndarray`
+                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
+        """
+        coord = self._create_empty_k(mode_no)
+        if self.dim == 1:
+            rng = self._get_random_stream()
+            ang1 = rng.random_sample(mode_no)
+            coord[0] = 2 * np.around(ang1) - 1
+        elif self.dim == 2:
+            rng = self._get_random_stream()
+            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
+            coord[0] = np.cos(ang1)
+            coord[1] = np.sin(ang1)
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return coord
+
+    def gau(self, mode_no=1000):
+        """
+        Compute a gaussian spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        len_scale = self.len_scale * np.sqrt(np.pi / 4)
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k[0] = rng.normal(0., np.sqrt(np.pi / 2.0) / len_scale, mode_no)
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # weibull distribution sampling
+            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def exp(self, mode_no=1000):
+        """
+        Compute an exponential spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k_u = rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k[0] = np.tan(k_u) / self.len_scale
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # sampling with ppf
+            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def _create_empty_k(self, mode_no=None):
+        """ Create empty mode array with the correct shape.
+        Parameters
+        ----------
+            mode_no : :class:`int`
+                number of the fourier modes
+        Returns
+        -------
+            :class:`numpy.ndarray`
+                the empty mode array
+        """
+        if mode_no is None:
+            k = np.empty(self.dim)
+        else:
+            k = np.empty((self.dim, mode_no))
+
+        return k
+
+    def _get_random_stream(self, seed=None):
+        # Streams without explicit seed follow the global generator, thus are reproducible.
+        stream = rand if seed is None else rand.RandomState(seed)
+        return rand.RandomState(stream.randint(2 ** 16 - 1))
+
+    def random_field(self):
+        """
+        Calculates the random modes for the randomization method.
+        """
+        y, z = None, None
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x), 1)
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+
+        normal_distr_values = self.get_normal_distr()
+
+        if self.correlation_exponent == 2:
+            k = self.gau(self.mode_no)
+        else:
+            k = self.exp(self.mode_no)
+
+        # reshape for unstructured grid
+        for dim_i in range(self.dim):
+            k[dim_i] = np.squeeze(k[dim_i])
+            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
+
+        summed_modes = np.broadcast(x, y, z)
+        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
+        # Test to see if enough memory is available.
+        # In case there isn't, divide Fourier modes into smaller chunks
+        chunk_no = 1
+        chunk_no_exp = 0
+
+        while True:
+            # Drop the chunks summed before running out of memory
+            summed_modes[...] = 0.0
+            try:
+                chunk_len = int(np.ceil(self.mode_no / chunk_no))
+
+                for chunk in range(chunk_no):
+                    a = chunk * chunk_len
+                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
+                    # numpy, use the commented min-function below
+                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
+                    e = (chunk + 1) * chunk_len
+
+                    if self.dim == 1:
+                        phase = k[0, a:e]*x
+                    elif self.dim == 2:
+                        phase = k[0, a:e]*x + k[1, a:e]*y
+                    else:
+                        phase = (k[0, a:e]*x + k[1, a:e]*y +
+                                 k[2, a:e]*z)
+
+                    summed_modes += np.squeeze(
+                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
+                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
+                               axis=-1))
+            except MemoryError:
+                chunk_no += 2**chunk_no_exp
+                chunk_no_exp += 1
+                print('Not enough memory. Dividing Fourier modes into {} '
+                      'chunks.'.format(chunk_no))
+            else:
+                break
+
+        field = np.sqrt(1.0 / self.mode_no) * summed_modes
+        return field
+
+    def _sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        return self.random_field()
+
+        if not self.log:
+            return field
+        return np.exp(field)
-- 
2.43.0


From 6df31c8bb473c54451971cc78adc65d8f8a0b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 49/50] fix: t_test rejected correct samples and accepted wrong
 ones (inverted assertion)

---
 mlmc/tool/stats_tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/stats_tests.py b/mlmc/tool/stats_tests.py
index 8fe5625..8b2c1e3 100644
--- a/mlmc/tool/stats_tests.py
+++ b/mlmc/tool/stats_tests.py
@@ -8,13 +8,13 @@ def t_test(mu_0, samples, max_p_val=0.01):
     failures with probability max_p_val.
 
     Perform the two-tailed t-test and
-    Assert that p-val is smaller then given value.
+    Assert that p-val is greater then given value.
     :param mu_0: Exact mean.
     :param samples: Samples to test.
     :param max_p_val: Probability of failed t-test for correct samples.
     """
     T, p_val = st.ttest_1samp(samples, mu_0)
-    assert p_val < max_p_val
+    assert p_val > max_p_val
 
 
 def chi2_test(var_0, samples, max_p_val=0.01, tag=""):
-- 
2.43.0


From 5c6b5a3cfd9b76895bb95497c9463971c0122f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 50/50] fix: Distribution divided all multipliers by the mass
 instead of normalising the density

---
 mlmc/tool/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/distribution.py b/mlmc/tool/distribution.py
index f0ecc4b..ef9c31a 100644
--- a/mlmc/tool/distribution.py
+++ b/mlmc/tool/distribution.py
@@ -147,8 +147,8 @@ class Distribution:
                    self.approx_size, result.nit, approx_tol, jac_norm, result.message))
 
         # Fix normalization
-        gradient, _ = self._calculate_exact_moment(self.multipliers, m=0, full_output=0)
-        self.multipliers /= gradient
+        moment_0, _ = self._calculate_exact_moment(self.multipliers, m=0, full_output=0)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
-- 
2.43.0

