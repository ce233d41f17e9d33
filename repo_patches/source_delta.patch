From fe2c807f1159353de1df4509ea75c96ceab1505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 01/26] fix: to_pc_dataset no longer rewrites the opinion
 scores of its source dataset

---
 sureal/dataset_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..0a4b516 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -400,10 +400,11 @@ class RawDatasetReader(DatasetReader):
         if isinstance(dis_videos[0]['os'], dict):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
-            # converting to dict_style
-            for dis_video in dis_videos:
-                scores = dis_video['os']
-                dis_video['os'] = dict(zip(map(lambda x: str(x), range(len(scores))), scores))
+            # converting to dict_style, on copies: the reader's own dataset must stay as is
+            dis_videos = [
+                dict(dis_video, os=dict(zip(map(lambda x: str(x), range(len(dis_video['os']))), dis_video['os'])))
+                for dis_video in dis_videos
+            ]
         else:
             assert False
 
-- 
2.43.0


From 831c7e235b46eb93e10b946a1e6a154066643791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 02/26] fix: to_pc_dataset applies per-asset parameters to the
 asset they were given for

---
 sureal/dataset_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 0a4b516..2b6e956 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -451,7 +451,7 @@ class RawDatasetReader(DatasetReader):
                             true_sampling_rate = sampling_rate
                         elif per_asset_sampling_rates is not None:
                             # the true sampling rate of a pair is the mean of the sampling rate of the two assets:
-                            true_sampling_rate = (per_asset_sampling_rates[idx] + per_asset_sampling_rates[idx2]) / 2.0
+                            true_sampling_rate = (per_asset_sampling_rates[d_assetid_disvideoidx[assetid]] + per_asset_sampling_rates[d_assetid_disvideoidx[assetid2]]) / 2.0
                         else:
                             assert False
                     else:
@@ -473,7 +473,7 @@ class RawDatasetReader(DatasetReader):
                         if cointoss_rate is not None:
                             true_cointoss_rate = cointoss_rate
                         elif per_asset_cointoss_rates is not None:
-                            true_cointoss_rate = (per_asset_cointoss_rates[idx] + per_asset_cointoss_rates[idx2]) / 2.0
+                            true_cointoss_rate = (per_asset_cointoss_rates[d_assetid_disvideoidx[assetid]] + per_asset_cointoss_rates[d_assetid_disvideoidx[assetid2]]) / 2.0
                         else:
                             true_cointoss_rate = None
 
@@ -485,8 +485,8 @@ class RawDatasetReader(DatasetReader):
                         else:
 
                             if per_asset_mean_scores is not None:
-                                mscore = per_asset_mean_scores[assetid]
-                                mscore2 = per_asset_mean_scores[assetid2]
+                                mscore = per_asset_mean_scores[d_assetid_disvideoidx[assetid]]
+                                mscore2 = per_asset_mean_scores[d_assetid_disvideoidx[assetid2]]
                             else:
                                 mscore = d_subj_assetid[subj][assetid]['score']
                                 mscore2 = d_subj_assetid[subj][assetid2]['score']
@@ -495,8 +495,8 @@ class RawDatasetReader(DatasetReader):
                                 score = mscore + random.gauss(0, noise_level)
                                 score2 = mscore2 + random.gauss(0, noise_level)
                             elif per_asset_noise_levels is not None:
-                                score = mscore + random.gauss(0, per_asset_noise_levels[idx])
-                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[idx2])
+                                score = mscore + random.gauss(0, per_asset_noise_levels[d_assetid_disvideoidx[assetid]])
+                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[d_assetid_disvideoidx[assetid2]])
                             else:
                                 score = mscore
                                 score2 = mscore2
-- 
2.43.0


From 43e122c3861e6efeecf02406aca2dd8576e705b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 03/26] fix: to_combined_overlap_dataset no longer appends
 votes to its source dataset

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 2b6e956..14b4a42 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -570,7 +570,7 @@ class RawDatasetReader(DatasetReader):
                             if not isinstance(vid1['os'][key], list):
                                 new_os = [vid1['os'][key]]
                             else:
-                                new_os = vid1['os'][key]
+                                new_os = list(vid1['os'][key])
 
                             if isinstance(vid2['os'][key], list):
                                 new_dis_video['os'][key] = new_os + vid2['os'][key]
-- 
2.43.0


From 46a8f56df0fe536e2171de0f753ee77e52a9575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 04/26] fix: selecting subjects of a list-style dataset no
 longer drops the votes of later subjects

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 14b4a42..dac2ea0 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -179,7 +179,7 @@ class RawDatasetReader(DatasetReader):
                     isinstance(self.dis_videos[0]['os'], tuple)
         ):
             for dis_video in self.dis_videos:
-                for idx_obs in range(self.num_observers):
+                for idx_obs in range(self._get_num_observers()):
                     scores = dis_video['os'][idx_obs]
                     if isinstance(scores, list) or isinstance(scores, tuple):
                         if len(scores) > max_reps:
@@ -214,7 +214,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], list) \
                 or isinstance(self.dis_videos[0]['os'], tuple):
             for i_dis_video, dis_video in enumerate(self.dis_videos):
-                for i_observer in range(self.num_observers):
+                for i_observer in range(self._get_num_observers()):
                     if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                         reps = len(dis_video['os'][i_observer])
                     else:
-- 
2.43.0


From 4dd05d1fc8bb846b6acc942810c9249de79bd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 05/26] fix: selected distorted videos are looked up by index,
 as their validation demands

---
 sureal/dataset_reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index dac2ea0..215d859 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -829,10 +829,7 @@ class SelectDisVideoRawDatasetReader(MockedRawDatasetReader):
     @property
     @override(DatasetReader)
     def dis_videos(self):
-        d_assetid_disvideo = dict()  # build dict: asset_id -> dis_video
-        for dv in self.dataset.dis_videos:
-            d_assetid_disvideo[dv['asset_id']] = dv
-        return [d_assetid_disvideo[asset_id] for asset_id in self.input_dict['selected_dis_videos']]
+        return [self.dataset.dis_videos[idx] for idx in self.input_dict['selected_dis_videos']]
 
     def to_dataset(self):
         raise NotImplementedError
-- 
2.43.0


From 252c80a65ca6d59d185c5e4b5da54ad7700c0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 06/26] fix: paired comparisons are attributed by asset_id when
 videos are not listed in asset_id order

---
 sureal/dataset_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 215d859..51a24cc 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1025,14 +1025,20 @@ class PairedCompDatasetReader(RawDatasetReader):
         for i_observer, observer in enumerate(list_observers):
             dict_observer_to_iobserver[observer] = i_observer
 
+        # build dict: asset_id -> index of dis_videos
+        dict_assetid_to_disvideoidx = dict()
+        for i_dis_video, dis_video in enumerate(self.dis_videos):
+            dict_assetid_to_disvideoidx[dis_video['asset_id']] = i_dis_video
+
         score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])
 
         for i_dis_video, dis_video in enumerate(self.dis_videos):
             for key, value in dis_video['os'].items():
                 assert value in [0, 0.5, 1], \
                     f"expect value in [0, 0.5, 1], but got: {value}"
-                subject, pvs_j = key
+                subject, assetid_j = key
                 pvs_i = i_dis_video
+                pvs_j = dict_assetid_to_disvideoidx[assetid_j]
                 score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                 score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
 
-- 
2.43.0


From f5928b027c056badfe248818fdc6340dab9e0e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 07/26] fix: simulated datasets carry plain lists, so
 repetitions survive re-reading and write-out

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 51a24cc..e0e6b33 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -643,7 +643,7 @@ class MockedRawDatasetReader(RawDatasetReader):
         num_videos, num_subjects, max_repetitions = score_mtx.shape
         assert num_videos == len(newone.dis_videos)
         for scores, dis_video in zip(score_mtx, newone.dis_videos):
-            dis_video['os'] = list(scores)
+            dis_video['os'] = scores.tolist()
 
         return newone
 
-- 
2.43.0


From 8c069d3a3177633a586d0f7d66d89e1168690b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 08/26] fix: import_python_file gives each file a module of its
 own instead of sharing by file name

---
 sureal/tools/misc.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..0eae9e1 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -108,17 +108,18 @@ def import_json_file(filepath):
 
 def import_python_file(filepath):
     """
-    Import a python file as a module.
+    Import a python file as a module. Every call returns a module of its own,
+    independent of other files of the same name and of what is in sys.modules.
     :param filepath:
     :return:
     """
+    from importlib.machinery import SourceFileLoader
+    from types import ModuleType
     filename = get_file_name_without_extension(filepath)
-    try:
-        from importlib.machinery import SourceFileLoader
-        ret = SourceFileLoader(filename, filepath).load_module()
-    except ImportError:
-        import imp
-        ret = imp.load_source(filename, filepath)
+    loader = SourceFileLoader(filename, filepath)
+    ret = ModuleType(filename)
+    ret.__file__ = filepath
+    exec(loader.source_to_code(loader.get_data(filepath), filepath), ret.__dict__)
     return ret
 
 
-- 
2.43.0


From 2e5fc15769284bd185eb8620470fa9a3216b9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 09/26] fix: write_out_dataset writes NaN, infinite and numpy
 values as importable source

---
 sureal/dataset_reader.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index e0e6b33..1c3ff2d 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1,6 +1,7 @@
 import pprint
 import copy
 import random
+import sys
 
 import numpy as np
 
@@ -12,6 +13,22 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+class _DatasetPrinter(pprint.PrettyPrinter):
+    """
+    Print dataset fields as python source that can be imported back: the plain
+    repr of NaN, infinity and numpy values can not.
+    """
+
+    def format(self, obj, context, maxlevels, level):
+        if isinstance(obj, np.ndarray):
+            obj = obj.tolist()
+        elif isinstance(obj, np.generic):
+            obj = obj.item()
+        if isinstance(obj, float) and not np.isfinite(obj):
+            return "float('{}')".format(obj), True, False
+        return super().format(obj, context, maxlevels, level)
+
+
 class DatasetReader(object):
 
     def __init__(self, dataset, **kwargs):
@@ -89,26 +106,28 @@ class DatasetReader(object):
     def write_out_dataset(dataset, output_dataset_filepath):
         assert (hasattr(dataset, 'ref_videos'))
         assert (hasattr(dataset, 'dis_videos'))
+        printer = _DatasetPrinter()
+        single_line_printer = _DatasetPrinter(width=sys.maxsize, sort_dicts=False)
         # write out
         with open(output_dataset_filepath, 'wt') as output_file:
             for key in dataset.__dict__.keys():
                 if key != 'ref_videos' and key != 'dis_videos' \
                         and key != 'subjects' and not key.startswith('__'):
-                    output_file.write('{} = '.format(key) + repr(
+                    output_file.write('{} = '.format(key) + single_line_printer.pformat(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
-            output_file.write('ref_videos = ' + pprint.pformat(
+            output_file.write('ref_videos = ' + printer.pformat(
                 dataset.ref_videos) + '\n')
             output_file.write('\n')
-            output_file.write('dis_videos = ' + pprint.pformat(
+            output_file.write('dis_videos = ' + printer.pformat(
                 dataset.dis_videos) + '\n')
             if 'subjects' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('subjects = ' + pprint.pformat(
+                output_file.write('subjects = ' + printer.pformat(
                     dataset.subjects) + '\n')
             if 'license' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('license = ' + pprint.pformat(
+                output_file.write('license = ' + printer.pformat(
                     dataset.license) + '\n')
 
 
-- 
2.43.0


From babaa70b0f4a0cb4819faf1c645ccf77ce5178ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 10/26] fix: results for selected subjects name the selected
 observers

---
 sureal/dataset_reader.py   | 8 ++++++++
 sureal/subjective_model.py | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 1c3ff2d..b5ec96d 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -188,6 +188,10 @@ class RawDatasetReader(DatasetReader):
 
         return get_unique_sorted_list(list_observers)
 
+    def _get_list_output_observers(self):
+        """names of the observers in the order of the second dimension of opinion_score_3darray"""
+        return self._get_list_observers()
+
     def _get_max_repetitions(self):
         """get the maximum number of times any observer evaluated any stimulus. For example, if all of the observers
         evaluated each stimulus only once, the function returns 1.
@@ -822,6 +826,10 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
     def num_observers(self):
         return len(self.input_dict['selected_subjects'])
 
+    def _get_list_output_observers(self):
+        list_observers = self._get_list_observers()
+        return [list_observers[idx] for idx in self.input_dict['selected_subjects']]
+
     @property
     def opinion_score_3darray(self):
         """
diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 1d82c74..c9a2497 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -64,7 +64,7 @@ class SubjectiveModel(TypeVersionEnabled):
         model_result = self._run_modeling(self.dataset_reader, **kwargs)
 
         try:
-            observers = self.dataset_reader._get_list_observers()  # may not exist
+            observers = self.dataset_reader._get_list_output_observers()  # may not exist
             model_result['observers'] = observers
         except AssertionError:
             pass
@@ -1128,7 +1128,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
             result['content_ambiguity_ci95'] = [list(1.95996 * a_c_std), list(1.95996 * a_c_std)]
 
         try:
-            observers = dataset_reader._get_list_observers()  # may not exist
+            observers = dataset_reader._get_list_output_observers()  # may not exist
             result['observers'] = observers
         except AssertionError:
             pass
-- 
2.43.0


From 411ac4e6e28a42d14feaf9c042b3d5223f0e50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 11/26] fix: density of the sum of two uniforms honours their
 locations on its slopes

---
 sureal/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 15a45e4..e38d6d8 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -108,13 +108,13 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     if - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     elif -d/2. <= z < d/2.:
         return h
     elif d/2. <= z < s/2.:
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     else:
         return 0.
 
-- 
2.43.0


From 6fa31ae41719663ccf2da35020de0ed72fd7c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 12/26] fix: parallel_map accepts any iterable of arguments

---
 sureal/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 0eae9e1..7dfe20d 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -227,7 +227,7 @@ def parallel_map(func, list_args, processes=None, pause_sec=0.01):
             sleep(pause_sec) # check every x sec
 
     # finally, collect results
-    rets = list(map(lambda idx: return_dict[idx], range(len(list_args))))
+    rets = list(map(lambda idx: return_dict[idx], range(len(list_idx_args))))
 
     return rets
 
-- 
2.43.0


From 51efac3420872c8b793ecd0b6a8f46686a6669b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 13/26] fix: persistent caches hash their keys under python 3
 and are never left half written

---
 sureal/tools/decorator.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..001be32 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -2,6 +2,7 @@ import os
 import json
 import hashlib
 import sys
+import uuid
 import warnings
 from functools import partial
 
@@ -9,6 +10,20 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+def _write_json(obj, file_name):
+    """
+    Write the file in one step, such that it is never left half written.
+    """
+    tmp_file_name = '{}.{}.tmp'.format(file_name, uuid.uuid4().hex)
+    try:
+        with open(tmp_file_name, 'wt') as tmp_file:
+            json.dump(obj, tmp_file)
+        os.replace(tmp_file_name, file_name)
+    finally:
+        if os.path.exists(tmp_file_name):
+            os.remove(tmp_file_name)
+
+
 def persist_to_file(file_name):
     """
     Cache (or persist) returned value of function in a json file .
@@ -25,10 +40,10 @@ def persist_to_file(file_name):
                 sys.exit(1)
 
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
-                json.dump(cache, open(file_name, 'wt'))
+                _write_json(cache, file_name)
             return cache[h]
 
         return new_func
@@ -50,7 +65,7 @@ def persist_to_dir(dir_name):
                 if not os.path.exists(dir_name):
                     os.makedirs(dir_name)
                 res = original_func(*args)
-                json.dump(res, open(file_name, 'wt'))
+                _write_json(res, file_name)
             else:
                 res = json.load(open(file_name, 'rt'))
             return res
-- 
2.43.0


From 4c1f7d01581aeda89942c8227537129452e52574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 14/26] fix: confidence intervals follow their scores when the
 quality plot is sorted

---
 sureal/routine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 745df44..30cce20 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -314,7 +314,7 @@ def run_subjective_models(dataset_filepath, subjective_model_classes, do_plot=No
                 elif plot_type == 'errorbar':
                     if 'quality_scores_ci95' in result:
                         try:
-                            quality_error = result['quality_scores_ci95']
+                            quality_error = [np.array(error)[order] for error in result['quality_scores_ci95']]
                             label += ' [avg CI {:.2f}]'.format(np.mean(np.array(quality_error[0]) +
                                                                        np.array(quality_error[1])))
                         except TypeError:
-- 
2.43.0


From 6adb2cbd84f7634e8e75002f44ad955803f61563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 15/26] fix: the formatted output covers models without a
 standard deviation

---
 sureal/routine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 30cce20..957608e 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -613,7 +613,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
         assert 'quality_scores' in result
         assert 'dis_video_names' in result
         assert len(result['dis_video_names']) == len(result['quality_scores'])
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             assert len(result['quality_scores']) == len(result['quality_scores_std'])
         if 'quality_scores_ci95' in result:
             assert len(result['quality_scores_ci95']) == 2
@@ -663,7 +663,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] = dis_video_name
         for idx, quality_score in enumerate(result['quality_scores']):
             output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score'] = quality_score
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             for idx, quality_score_std in enumerate(result['quality_scores_std']):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_std'] = quality_score_std
         if 'quality_scores_ci95' in result:
-- 
2.43.0


From d466aaafbf4edbea4662f1392ddf5cce5af0badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 16/26] fix: the formatted output covers datasets with gaps in
 their content ids

---
 sureal/routine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 957608e..1217ee4 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -646,7 +646,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
             for ref_video in dataset.ref_videos:
                 dict_contentid_content[ref_video['content_id']] = \
                     f"{ref_video['content_name']}"
-            result['contents'] = [dict_contentid_content[k] for k in sorted(dict_contentid_content.keys())]
+            result['contents'] = [dict_contentid_content.get(k, '') for k in range(max(dict_contentid_content.keys()) + 1)]
             assert len(result['contents']) == len(result['content_ambiguity'])
             if 'content_ambiguity_std' in result:
                 assert len(result['content_ambiguity']) == len(result['content_ambiguity_std'])
-- 
2.43.0


From 59c7b3a3df9f32862b980c658da3b022827ffbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:52 +0000
Subject: [PATCH 17/26] fix: to_combined_overlap_dataset keeps repetitions
 given as tuples readable

---
 sureal/dataset_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index b5ec96d..efe0ddb 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -590,13 +590,13 @@ class RawDatasetReader(DatasetReader):
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-                            if not isinstance(vid1['os'][key], list):
+                            if not isinstance(vid1['os'][key], (list, tuple)):
                                 new_os = [vid1['os'][key]]
                             else:
                                 new_os = list(vid1['os'][key])
 
-                            if isinstance(vid2['os'][key], list):
-                                new_dis_video['os'][key] = new_os + vid2['os'][key]
+                            if isinstance(vid2['os'][key], (list, tuple)):
+                                new_dis_video['os'][key] = new_os + list(vid2['os'][key])
                             else:
                                 new_os.append(vid2['os'][key])
                                 new_dis_video['os'][key] = new_os
-- 
2.43.0


From d37cb799f50d422956a5537a364c7e2a2b9ad9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:20 +0000
Subject: [PATCH 18/26] fix: the ambiguity deviation of a content without
 videos is not negative, so plotting it works

---
 sureal/subjective_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index c9a2497..6ac2d77 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -1003,6 +1003,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
 
             # force non-negative
             a_c = np.maximum(a_c, 0.0 * np.ones(a_c.shape))
+            a_c_std = np.abs(a_c_std)  # a content without videos has a zero curvature of either sign
 
             if cls.mode == 'CONTENT_OBLIVIOUS':
                 a_c = np.zeros(C) # forcing zero, hence disabling
-- 
2.43.0


From abe6a5ee139cfffb33f25309c9d2ff0730c9bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:13 +0000
Subject: [PATCH 19/26] fix: to_pc_dataset does not count missing (NaN) votes
 as ties

---
 sureal/dataset_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index efe0ddb..a6eba05 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -435,6 +435,8 @@ class RawDatasetReader(DatasetReader):
         d_subj_assetid = dict()
         for dis_video in dis_videos:
             for subj in dis_video['os']:
+                if isinstance(dis_video['os'][subj], float) and np.isnan(dis_video['os'][subj]):
+                    continue  # not rated
                 if subj not in d_subj_assetid:
                     d_subj_assetid[subj] = dict()
                 assert dis_video['asset_id'] not in d_subj_assetid[subj] # assuming no repetition for single subject and a dis_video
-- 
2.43.0


From 4831a4baea335e142b2bb314493239ef8663ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:18 +0000
Subject: [PATCH 20/26] fix: SyntheticLogisticRawDatasetReader honours the seed

---
 sureal/dataset_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index a6eba05..1351cbd 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -761,6 +761,9 @@ class SyntheticLogisticRawDatasetReader(SyntheticRawDatasetReader):
         use logistic instead of
         """
 
+        if 'seed' in self.input_dict:
+            np.random.seed(self.input_dict['seed'])
+
         S = self.num_observers
         E = self.num_dis_videos
 
-- 
2.43.0


From 4f86e1c285a78cbd9512ce544473780d67f3408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:26 +0000
Subject: [PATCH 21/26] fix: persist_to_dir does not fail when another process
 creates the directory at the same time

---
 sureal/tools/decorator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index 001be32..aaab79b 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -62,8 +62,7 @@ def persist_to_dir(dir_name):
             h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             file_name = os.path.join(dir_name, h)
             if not os.path.exists(file_name):
-                if not os.path.exists(dir_name):
-                    os.makedirs(dir_name)
+                os.makedirs(dir_name, exist_ok=True)
                 res = original_func(*args)
                 _write_json(res, file_name)
             else:
-- 
2.43.0


From 5da71e3b1e817c6964d72069868d25c6d1409688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 22/26] fix: persist_to_file keeps working after a value that
 cannot be stored

---
 sureal/tools/decorator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index aaab79b..44054ef 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -42,8 +42,9 @@ def persist_to_file(file_name):
         def new_func(*args):
             h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
-                cache[h] = original_func(*args)
-                _write_json(cache, file_name)
+                res = original_func(*args)
+                _write_json(dict(cache, **{h: res}), file_name)
+                cache[h] = res
             return cache[h]
 
         return new_func
-- 
2.43.0


From e6e25ca4e68772319c89fc405ade0f2efd0a5cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:38 +0000
Subject: [PATCH 23/26] fix: mos_to_sureal keeps fractional ratings and leaves
 out missing ones

---
 resource/util/mos_to_sureal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resource/util/mos_to_sureal.py b/resource/util/mos_to_sureal.py
index 8ab03c8..20af33e 100755
--- a/resource/util/mos_to_sureal.py
+++ b/resource/util/mos_to_sureal.py
@@ -65,7 +65,10 @@ def extract_scores_from_record(record):
         if not any([key.lower().startswith(s) for s in ["user", "s", "subject"]]):
             print("Unkown column named " + str(key) + "!")
             continue
-        ratings[key] = int(val)  # FIXME: should we allow fractional scores?
+        # an empty cell is a rating that was not given
+        if val != val:
+            continue
+        ratings[key] = int(val) if val == int(val) else float(val)
 
     return ratings
 
-- 
2.43.0


From 55fa098b6d79b08f48590c6fbb6d0167f8cf1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:05 +0000
Subject: [PATCH 24/26] fix: differential scoring works on a selection of
 videos

---
 sureal/subjective_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 6ac2d77..60cb58a 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -99,7 +99,7 @@ class SubjectiveModel(TypeVersionEnabled):
     @staticmethod
     def _get_ref_mos(dataset_reader, mos):
         ref_mos = []
-        for dis_video in dataset_reader.dataset.dis_videos:
+        for dis_video in dataset_reader.dis_videos:
             # get the dis video's ref video's mos
             curr_content_id = dis_video['content_id']
             ref_indices = indices(
-- 
2.43.0


From ee3d84e857691fb547fed4ee499e616ba46ec66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:33 +0000
Subject: [PATCH 25/26] fix: validate_with_synthetic_dataset runs all models on
 one simulated dataset when no seed is given

---
 sureal/routine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sureal/routine.py b/sureal/routine.py
index 1217ee4..4b063c5 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -772,6 +772,10 @@ def validate_with_synthetic_dataset(synthetic_dataset_reader_class,
         measure_runtime = more['measure_runtime'] if 'measure_runtime' in more else False
         assert isinstance(measure_runtime, bool)
 
+        if 'seed' not in synthetic_result or synthetic_result['seed'] is None:
+            # every reading of the simulated data must yield the same votes
+            synthetic_result = dict(synthetic_result, seed=int(np.random.randint(2 ** 31 - 1)))
+
         dataset = import_python_file(dataset_filepath)
         dataset_reader = synthetic_dataset_reader_class(dataset, input_dict=synthetic_result)
 
-- 
2.43.0


From a3780888296d50d3144b25f28d24d3c095c6b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 26/26] fix: to_dictionary_style_dataset honours its options
 for every vote style and when writing a file

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 1351cbd..aa13edf 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -614,7 +614,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], dict):
             for dis_video in self.dis_videos:
                 assert isinstance(dis_video['os'], dict), f"expect dis_video['os'] to be dict, but is: {dis_video['os']}"
-            newone = self.dataset
+            newone = self._prepare_new_dataset(kwargs)
         else:
 
             newone = self._prepare_new_dataset(kwargs)
@@ -637,7 +637,7 @@ class RawDatasetReader(DatasetReader):
         return newone
 
     def to_dictionary_style_dataset_file(self, dataset_filepath, **kwargs):
-        dict_style_dataset = self.to_dictionary_style_dataset()
+        dict_style_dataset = self.to_dictionary_style_dataset(**kwargs)
         self.write_out_dataset(dict_style_dataset, dataset_filepath)
 
 
-- 
2.43.0

