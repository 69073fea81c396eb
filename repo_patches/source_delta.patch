From 935b7790849fa403c9fbe0273bab951bb8af0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 01/29] fix: bwmorph_thin uses np.in1d/np.bool, which NumPy 2
 removed

---
 pyEdgeEval/preprocess/thin/bwmorph_thin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/preprocess/thin/bwmorph_thin.py b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
index dacd5a4..5f089b9 100644
--- a/pyEdgeEval/preprocess/thin/bwmorph_thin.py
+++ b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
@@ -114,7 +114,7 @@ def bwmorph_thin(image, n_iter=None):
 
     if skel.ndim != 2:
         raise ValueError("2D array required")
-    if not np.all(np.in1d(image.flat, (0, 1))):
+    if not np.all(np.isin(image, (0, 1))):
         raise ValueError("Image contains values other than 0 and 1")
 
     # neighborhood mask
@@ -142,7 +142,7 @@ def bwmorph_thin(image, n_iter=None):
         # count down to iteration limit (or endlessly negative)
         n -= 1
 
-    return skel.astype(np.bool)
+    return skel.astype(bool)
 
 
 """
-- 
2.43.0


From f01a940d6353209cf442a72e8b4bf8a2b7923a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 02/29] fix: binary_thin stopped when one sub-iteration was
 idle although the other still thins

---
 pyEdgeEval/preprocess/thin/thin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyEdgeEval/preprocess/thin/thin.py b/pyEdgeEval/preprocess/thin/thin.py
index b843c5c..c309897 100644
--- a/pyEdgeEval/preprocess/thin/thin.py
+++ b/pyEdgeEval/preprocess/thin/thin.py
@@ -262,20 +262,20 @@ def binary_thin(x, max_iter=None):
         # Iter 1
         lut_indices = binary_image_to_lut_indices(x)
         # FIXME: index "" is out of bounds for axis 0 with size 512
-        x_mut = thin1_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = thin1_mut[lut_indices].any()
 
         x = thin1[lut_indices]
 
         # Iter 2
         lut_indices = binary_image_to_lut_indices(x)
-        x_mut = thin2_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = changed or thin2_mut[lut_indices].any()
 
         x = thin2[lut_indices]
 
+        # only stop when neither of the two sub-iterations changed anything
+        if not changed:
+            break
+
         iter_count += 1
 
     return x
-- 
2.43.0


From 854e8c6c96a3cc27d451aa4f36b59a19e9310e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 03/29] fix: default_multilabel_encoding overflowed for 9 or
 more classes of uint8 edges

---
 pyEdgeEval/common/multi_label/edge_encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index 22945b0..ac85a8a 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -22,7 +22,9 @@ def default_multilabel_encoding(edges: np.ndarray):
     cat_edge_map = np.zeros((h, w), dtype=np.uint32)
     for trainId in range(num_classes):
         edge_map = edges[trainId]
-        cat_edge_map = cat_edge_map + (2**trainId) * edge_map
+        cat_edge_map = cat_edge_map + np.uint32(2**trainId) * edge_map.astype(
+            np.uint32
+        )
 
     return cat_edge_map
 
-- 
2.43.0


From a0a42d1d6b616daf8436e61309ec248361441e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 04/29] fix: edge_onehot2multilabel overflowed for 9 or more
 labels of uint8 edges

---
 pyEdgeEval/utils/convert_formats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 35e1ef7..4d3c111 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -36,7 +36,7 @@ def edge_onehot2multilabel(edges: np.ndarray) -> np.ndarray:
     edge_map = np.zeros((h, w), dtype=np.uint32)
     for l in range(labels):
         m = edges[l]
-        edge_map = edge_map + (2**l) * m
+        edge_map = edge_map + np.uint32(2**l) * m.astype(np.uint32)
 
     return edge_map
 
-- 
2.43.0


From f75159af77234231b160f02b02ef6ea8fe879129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 05/29] fix: mask2onehot rejected masks with fewer rows than
 there are labels

---
 pyEdgeEval/utils/convert_formats.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 4d3c111..2721c0e 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -8,13 +8,9 @@ def mask2onehot(mask, labels):
     Converts a segmentation mask (H,W) to (K,H,W) where the last dim is a one
     hot encoding vector
     """
-    c = mask.shape[0]
     assert (
         len(labels) > 0
     ), "`labels` should be a list with more than 1 elements"
-    assert c >= len(
-        labels
-    ), "tried to convert into onehot with more labels than the original mask"
     _mask = [mask == i for i in labels]
     return np.array(_mask).astype(np.uint8)
 
-- 
2.43.0


From 5e21503aeb1f45764c9c4a492206250f6df9cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 06/29] fix: mask_label2trainId failed on the (H,W,1) masks it
 accepts

---
 pyEdgeEval/utils/convert_formats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 2721c0e..5689622 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -52,6 +52,7 @@ def mask_label2trainId(mask: np.ndarray, label2trainId: dict) -> np.ndarray:
     elif len(mask.shape) == 3:
         h, w, c = mask.shape
         assert c == 1, f"ERR: input label has {c} channels which should be 1"
+        mask = mask[:, :, 0]
     else:
         raise ValueError()
 
-- 
2.43.0


From 2b639dcda4e3ba36921f3565f37c4f6bf1027479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 07/29] fix: mp_instance_mask2edge misread the instance ids of
 labels below 10

---
 pyEdgeEval/edge_tools/mask2edge_mp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index 2b7a716..2eba7e0 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -238,8 +238,10 @@ def mp_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        # same format as the loop version: 2 digit label + 3 digit instance
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From 4fe28cd57d37fdabc08db86748fbb4755006b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 08/29] fix: check_thresholds rejected the NumPy arrays it
 documents

---
 pyEdgeEval/common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/common/utils.py b/pyEdgeEval/common/utils.py
index 7c1eaea..8aafd64 100644
--- a/pyEdgeEval/common/utils.py
+++ b/pyEdgeEval/common/utils.py
@@ -15,6 +15,9 @@ def check_thresholds(thresholds):
     elif isinstance(thresholds, list):
         # multiple specific thresholds
         thresholds = np.array(thresholds)
+    elif isinstance(thresholds, np.ndarray):
+        # already an array of thresholds
+        pass
     else:
         raise ValueError(
             "thresholds should be an int or a NumPy array, not "
-- 
2.43.0


From fb1484f46f8b5f8a747cdb7bd0c709a04c1db538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 09/29] fix: evaluate_reanno_sbd always failed, passing
 max_dist to a fixed-distance protocol

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index fa68114..0226179 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -367,7 +367,6 @@ def evaluate_reanno_sbd(gt_dir: str = "gtEval"):
         apply_thinning=apply_thinning,
         apply_nms=args.apply_nms,
         nonIS=args.nonIS,
-        max_dist=args.max_dist,
         thresholds=args.thresholds,
         nproc=args.nproc,
     )
-- 
2.43.0


From 0e5c328c099b0b51098101212d7417a731160b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 10/29] fix: evaluate_sbd ignored --pred-suffix

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index 0226179..0925462 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -178,6 +178,7 @@ def evaluate(
     evaluator = SBDEvaluator(
         dataset_root=sbd_path,
         pred_root=pred_path,
+        pred_suffix=pred_suffix,
         thin=apply_thinning,
         gt_dir=gt_dir,  # NOTE: we can change the directory where the preprocessed GTs are located
     )
-- 
2.43.0


From 3c12ba4433e844874823c3b91f8ad5294e72d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 11/29] fix: the .bin output of the Cityscapes conversion
 raised TypeError

---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 4b1909b..1972cac 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -183,7 +183,7 @@ def convert_label_to_semantic_edges(
         edges_img.save(proc_file)
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.tofile(proc_file, dtype=np.uint32)
+        edges.astype(np.uint32).tofile(proc_file)
     else:
         raise ValueError()
 
-- 
2.43.0


From eec797b97cbcac257bdcb5b1bacf03241b2b40ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 12/29] fix: SBD kill_internal masked with the segmentation of
 the preceding category

---
 pyEdgeEval/datasets/sbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/datasets/sbd.py b/pyEdgeEval/datasets/sbd.py
index 6c86c74..a4874d4 100644
--- a/pyEdgeEval/datasets/sbd.py
+++ b/pyEdgeEval/datasets/sbd.py
@@ -62,7 +62,7 @@ def _evaluate_single(
 
         # need to be careful where the category starts
         # some datasets will skip 0 and start from 1 (like sbd)
-        cat_seg = seg == cat_idx
+        cat_seg = seg == category
     else:
         cat_seg = None
 
-- 
2.43.0


From 5b7621cab5f817184ac75c86d601f07fa1fa120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 13/29] fix: sparse2numpy rejected the csc_array that current
 SciPy loads from .mat files

---
 pyEdgeEval/utils/mat_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/mat_utils.py b/pyEdgeEval/utils/mat_utils.py
index 7b4c518..ad8ef0b 100644
--- a/pyEdgeEval/utils/mat_utils.py
+++ b/pyEdgeEval/utils/mat_utils.py
@@ -4,7 +4,7 @@ import os
 
 # libraries used for .mat io
 from scipy.io import loadmat as scipy_loadmat
-from scipy.sparse import csc_matrix
+from scipy.sparse import csc_matrix, issparse
 
 try:
     # prefer `pymatreader`
@@ -35,7 +35,8 @@ def loadmat(
 
 def sparse2numpy(data: csc_matrix):
     """helper function to convert compressed sparse column matrix to numpy array"""
-    assert isinstance(
-        data, csc_matrix
+    # newer versions of SciPy load `csc_array` instead of `csc_matrix`
+    assert (
+        issparse(data) and data.format == "csc"
     ), f"ERR: input is not csc_matrix, but got {type(data)}"
     return data.toarray()
-- 
2.43.0


From 53fdd641098d96998ab9abd5ae4aae69075f6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 14/29] fix: use_cv2=False drew edges in masks that cover the
 whole image or nothing

---
 pyEdgeEval/utils/distance_transforms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 05add88..6186135 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -21,9 +21,16 @@ def cv2_mask2bdry(m, ignore_mask, radius, quality):
     return dist
 
 
+def _scipy_distance_transform(m):
+    # scipy's output is meaningless when there is no background pixel
+    if np.all(m):
+        return np.full(m.shape, np.inf)
+    return distance_transform_edt(m)
+
+
 def scipy_mask2bdry(m, ignore_mask, radius):
-    inner = distance_transform_edt((m + ignore_mask) > 0)
-    outer = distance_transform_edt(1.0 - m)
+    inner = _scipy_distance_transform((m + ignore_mask) > 0)
+    outer = _scipy_distance_transform(1.0 - m)
     dist = outer + inner
 
     dist[dist > radius] = 0
@@ -44,7 +51,7 @@ def mask2internal(
             ((mask + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
         )
     else:
-        inner = distance_transform_edt((mask + ignore_mask) > 0)
+        inner = _scipy_distance_transform((mask + ignore_mask) > 0)
 
     inner[inner > radius] = 0
     return (inner > 0).astype(np.uint8)
-- 
2.43.0


From b63fb255fac2cdd056d22c23b0d94ffbaf8afe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 15/29] fix: AP averaged 101 recall levels but left out
 recall=1

---
 pyEdgeEval/common/binary_label/calculate_metrics.py | 2 +-
 pyEdgeEval/common/multi_label/calculate_metrics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/calculate_metrics.py b/pyEdgeEval/common/binary_label/calculate_metrics.py
index 0331197..4b20d5c 100644
--- a/pyEdgeEval/common/binary_label/calculate_metrics.py
+++ b/pyEdgeEval/common/binary_label/calculate_metrics.py
@@ -137,7 +137,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, 101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
diff --git a/pyEdgeEval/common/multi_label/calculate_metrics.py b/pyEdgeEval/common/multi_label/calculate_metrics.py
index 36f0e05..371e1c4 100644
--- a/pyEdgeEval/common/multi_label/calculate_metrics.py
+++ b/pyEdgeEval/common/multi_label/calculate_metrics.py
@@ -140,7 +140,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, 101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
-- 
2.43.0


From b55ebd35059c7f3657927f00bb00fd1b8b347d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 16/29] fix: SBD post-seal evaluation ignored max_dist
 (--max-dist)

---
 pyEdgeEval/evaluators/sbd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/evaluators/sbd.py b/pyEdgeEval/evaluators/sbd.py
index 873a674..cbda0f7 100644
--- a/pyEdgeEval/evaluators/sbd.py
+++ b/pyEdgeEval/evaluators/sbd.py
@@ -157,7 +157,8 @@ class SBDEvaluator(BaseMultilabelEvaluator):
             self.instance_sensitive = False
         elif eval_mode == "post-seal":
             print_log("Using Post-SEAL params", logger=self._logger)
-            self.max_dist = 0.02
+            print_log(f"Using max_dist: {max_dist}", logger=self._logger)
+            self.max_dist = max_dist
             if instance_sensitive:
                 self.instance_sensitive = True
                 self.kill_internal = False
-- 
2.43.0


From 5ba320dceeee5e37a032a055b45c7896c6013400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 17/29] fix: Cityscapes conversion wrote outside the dataset
 when its root path contains gtFine

---
 pyEdgeEval/helpers/convert_cityscapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 1972cac..0cdc618 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -48,7 +48,8 @@ def convert_json_to_label(
 ) -> None:
     json_dir = osp.dirname(json_file)
     json_fn = osp.basename(json_file)
-    proc_dir = json_dir.replace("gtFine", proc_dir)
+    # only the `gtFine` dir itself; the root path could contain `gtFine` as well
+    proc_dir = proc_dir.join(json_dir.rsplit("gtFine", 1))
     proc_fn = json_fn.replace(poly_suffix, id_suffix)
     mkdir_or_exist(proc_dir)
     proc_file = osp.join(proc_dir, proc_fn)
@@ -97,7 +98,8 @@ def convert_label_to_semantic_edges(
         assert radius == 1, "ERR: `thin` requires radius=1"
     label_dir = osp.dirname(label_file)
     label_fn = osp.basename(label_file)
-    proc_dir = label_dir.replace("gtFine", proc_dir)
+    # only the `gtFine` dir itself; the root path could contain `gtFine` as well
+    proc_dir = proc_dir.join(label_dir.rsplit("gtFine", 1))
     proc_fn = label_fn.replace(label_suffix, edge_suffix)
 
     mkdir_or_exist(proc_dir)
-- 
2.43.0


From 0efc7b3545e0de3063885bebc718845908d5e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 18/29] fix: nms read out of bounds on images of a single row
 or column

---
 pyEdgeEval/_lib/src/benms.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/_lib/src/benms.cc b/pyEdgeEval/_lib/src/benms.cc
index 68326e1..4210b5a 100644
--- a/pyEdgeEval/_lib/src/benms.cc
+++ b/pyEdgeEval/_lib/src/benms.cc
@@ -15,7 +15,9 @@ inline double interp(const Matrix& I, int h, int w, double x, double y)
   x = x < 0 ? 0 : (x > w - 1.001 ? w - 1.001 : x);
   y = y < 0 ? 0 : (y > h - 1.001 ? h - 1.001 : y);
   int x0 = int(x), y0 = int(y);
-  int x1 = x0 + 1, y1 = y0 + 1;
+  // images of a single column or row have no next pixel
+  int x1 = x0 + 1 < w ? x0 + 1 : x0;
+  int y1 = y0 + 1 < h ? y0 + 1 : y0;
   double dx0 = x - x0, dy0 = y - y0;
   double dx1 = 1 - dx0, dy1 = 1 - dy0;
   double out = I(y0, x0) * dx1 * dy1 +
-- 
2.43.0


From 46c452af924c73460f14d183db7281abc9013694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 19/29] fix: plot_pr_curve could not read the 9 overall results
 that the evaluators save

---
 pyEdgeEval/common/binary_label/visualize.py |  8 ++++----
 pyEdgeEval/visualization/pr_curve.py        | 11 +++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index f3431a5..960383c 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -61,11 +61,11 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
 
@@ -83,7 +83,7 @@ def plot_pr_curve(
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 2a0da75..df2d6c4 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -61,6 +61,9 @@ def _load_threshold_data(data_path):
 def _load_overall_results(data_path):
     assert os.path.exists(data_path), f"ERR: {data_path} doesn't exist"
     res = np.loadtxt(data_path)
+    if res.size == 8:
+        # the MATLAB benchmarks don't have AP, and only save the area (AUC)
+        res = np.append(res, res[7])
     return res
 
 
@@ -102,11 +105,11 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
 
@@ -124,7 +127,7 @@ def plot_pr_curve(
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)  # should remove
-- 
2.43.0


From e7eb5a7c693733d1eaea0350d71b69d48efbd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 20/29] fix: plot_pr_curve failed on algorithms with different
 numbers of curve points

---
 pyEdgeEval/common/binary_label/visualize.py |  8 ++++----
 pyEdgeEval/visualization/pr_curve.py        | 12 +++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index 960383c..096a4be 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -67,17 +67,17 @@ def plot_pr_curve(
         res[i, :9] = _load_overall_results(alg.overall_results)
         res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index df2d6c4..ada1bfd 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -53,7 +53,7 @@ def _isometric_contour_line_template(
 
 def _load_threshold_data(data_path):
     assert os.path.exists(data_path), f"ERR: {data_path} doesn't exist"
-    pr = np.loadtxt(data_path)
+    pr = np.loadtxt(data_path, ndmin=2)
     pr = pr[pr[:, 1] >= 1e-3]
     return pr
 
@@ -68,6 +68,8 @@ def _load_overall_results(data_path):
 
 
 def _calc_r50(pr):
+    if len(pr) == 0:
+        return np.nan
     _, o = np.unique(pr[:, 2], return_index=True)
     r50 = interp1d(
         pr[o, 2],
@@ -111,17 +113,17 @@ def plot_pr_curve(
         res[i, :9] = _load_overall_results(alg.overall_results)
         res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
-- 
2.43.0


From d083ab8974c70e20d8e78f2e46639914fc279a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 21/29] fix: load SBD instance annotations with a single
 instance (new loader)

---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 59ac25d..dd3524c 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -9,6 +9,7 @@ from typing import Optional
 
 import numpy as np
 from PIL import Image
+from scipy.sparse import issparse
 
 from pyEdgeEval.common.multi_label import (
     rgb_multilabel_encoding,
@@ -81,6 +82,9 @@ def load_sbd_gt_inst_mat(path: str, new_loader: bool = False):
         gt = loadmat(path, True)["GTinst"]
         segmentation = gt["Segmentation"]
         boundaries = gt["Boundaries"]
+        if issparse(boundaries):
+            # single instance
+            boundaries = [boundaries]
         categories = gt["Categories"]
         if isinstance(categories, int):
             categories = np.array([categories])
-- 
2.43.0


From b6f72893fe46eb7fc4dfba542b08cdef657f0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 22/29] fix: SBD conversion failed to save instance maps
 (32-bit png)

---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index dd3524c..d96eb9e 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -355,8 +355,8 @@ def routine(
         )
         train_img.save(osp.join(save_dir, f"{sample_name}{train_suffix}"))
 
-        # save instance
-        inst_img = Image.fromarray(inst)
+        # save instance (16-bit png, newer Pillow cannot save 32-bit)
+        inst_img = Image.fromarray(inst.astype(np.uint16))
         inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
 
 
-- 
2.43.0


From 72b0582faec56399ef948daef01b7230633ba0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 23/29] fix: nms_results names its outputs after the whole file
 name and skips existing ones

---
 pyEdgeEval/preprocess/nms/fast_nms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 5ed4dee..99464aa 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -113,9 +113,10 @@ def nms_results(result_dir, save_dir, loader):
         os.makedirs(save_dir)
 
     for file in os.listdir(result_dir):
-        save_name = os.path.join(save_dir, f"{os.path.splitext(file[0])}.png")
+        save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
+            continue
         img_path = os.path.join(result_dir, file)
         # load image
         img = loader(img_path)
-- 
2.43.0


From c75a7eec98f6e74c8dccfb7117ad49ad42603da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 24/29] fix: conv_tri subsampling keeps floor(size / s) samples
 as convTri does

---
 pyEdgeEval/preprocess/nms/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/preprocess/nms/toolbox.py b/pyEdgeEval/preprocess/nms/toolbox.py
index 9ff84b5..1683c09 100644
--- a/pyEdgeEval/preprocess/nms/toolbox.py
+++ b/pyEdgeEval/preprocess/nms/toolbox.py
@@ -36,8 +36,8 @@ def conv_tri(
     if s > 1:
         t = int(np.floor(s / 2) + 1)
         image = image[
-            t - 1 : image.shape[0] - (s - t) + 1 : s,
-            t - 1 : image.shape[1] - (s - t) + 1 : s,
+            t - 1 : image.shape[0] - (s - t) : s,
+            t - 1 : image.shape[1] - (s - t) : s,
         ]
     return image
 
-- 
2.43.0


From adba323fcc2bf11d43b7c47a8e827718c18ee6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 25/29] fix: get_logger does not take a logger for a child of
 another because of a common prefix

---
 pyEdgeEval/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/logger.py b/pyEdgeEval/utils/logger.py
index 8632123..a604ee6 100644
--- a/pyEdgeEval/utils/logger.py
+++ b/pyEdgeEval/utils/logger.py
@@ -41,7 +41,7 @@ def get_logger(name, log_file=None, log_level=logging.INFO, file_mode="w"):
     # e.g., logger "a" is initialized, then logger "a.b" will skip the
     # initialization since it is a child of "a".
     for logger_name in logger_initialized:
-        if name.startswith(logger_name):
+        if not logger_name or name.startswith(logger_name + "."):
             return logger
 
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From 3f865c060c380eb8312f6d78189d9d622abb6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 26/29] fix: test_edges replaces only the last occurrence of
 the directory name

---
 pyEdgeEval/helpers/convert_cityscapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 0cdc618..b31c7a6 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -216,7 +216,8 @@ def test_edges(
 ) -> None:
     edge_dir = osp.dirname(edge_file)
     edge_fn = osp.basename(edge_file)
-    test_dir = edge_dir.replace(orig_dir, test_dir)
+    # only the directory itself; the root path could contain its name as well
+    test_dir = test_dir.join(edge_dir.rsplit(orig_dir, 1))
     test_file = osp.join(test_dir, edge_fn)
     test_file = test_file.replace(orig_suffix, test_suffix)
     _, ext = osp.splitext(edge_file)
-- 
2.43.0


From d20859da3a95b34350e925d18a9e030a092d8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:48 +0000
Subject: [PATCH 27/29] fix: correspond_pixels computed the diagonal of large
 images in a C int

---
 pyEdgeEval/_lib/correspond_pixels.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/_lib/correspond_pixels.pyx b/pyEdgeEval/_lib/correspond_pixels.pyx
index c2b2f28..8b1a3f4 100644
--- a/pyEdgeEval/_lib/correspond_pixels.pyx
+++ b/pyEdgeEval/_lib/correspond_pixels.pyx
@@ -19,7 +19,8 @@ cdef _correspond_pixels(double[::1,:] img0, double[::1,:] img1, double max_dist,
                         double[::1,:] out0, double[::1,:] out1):
     cdef int rows = img0.shape[0]
     cdef int cols = img0.shape[1]
-    cdef double idiag = math.sqrt(rows * rows + cols * cols)
+    # the squares of large images don't fit in a C int
+    cdef double idiag = math.sqrt(<double>rows * rows + <double>cols * cols)
     cdef double oc = outlier_cost * max_dist * idiag
 
     # Copy data to Matrix types; construct matrices, get views of their contents and copy
-- 
2.43.0


From 0ec1723c39410c7429a4b2895b9dac0c054fea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:24 +0000
Subject: [PATCH 28/29] fix: load BSDS ground truths with a single annotator
 (new loader)

---
 pyEdgeEval/datasets/bsds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/datasets/bsds.py b/pyEdgeEval/datasets/bsds.py
index e4052a3..7b9fd4e 100644
--- a/pyEdgeEval/datasets/bsds.py
+++ b/pyEdgeEval/datasets/bsds.py
@@ -21,6 +21,9 @@ def load_bsds_gt_boundaries(path: str, new_loader: bool = False):
         from pymatreader import read_mat
 
         gt = read_mat(path)["groundTruth"]  # list
+        if isinstance(gt, dict):
+            # single annotator
+            gt = [gt]
         num_gts = len(gt)
         return [gt[i]["Boundaries"] for i in range(num_gts)]
     else:
-- 
2.43.0


From 5d71ab67b8882e498de56cf24e21f01c3510a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 29/29] fix: parallel progress drops the results after a task
 that raises StopIteration

The pool's result iterator takes it for its own end; track_parallel_progress
returned the results before it and lost the error.
---
 pyEdgeEval/utils/progressbar.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index b237ecb..c70240c 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -8,6 +8,7 @@
 
 import sys
 from collections.abc import Iterable
+from functools import partial
 from multiprocessing import Pool
 from shutil import get_terminal_size
 
@@ -115,6 +116,21 @@ def track_progress(
     return results
 
 
+class _StoppedTask:
+    """Result of a task that raised StopIteration"""
+
+    def __init__(self, error):
+        self.error = error
+
+
+def _run_task(func, task):
+    # a StopIteration would end the iteration over the results of the pool
+    try:
+        return func(task)
+    except StopIteration as e:
+        return _StoppedTask(e)
+
+
 def init_pool(process_num, initializer=None, initargs=None):
     if initializer is None:
         return Pool(process_num)
@@ -182,11 +198,14 @@ def track_parallel_progress(
     if not no_bar:
         prog_bar = ProgressBar(task_num, bar_width, start, file=file)
     results = []
+    func = partial(_run_task, func)
     if keep_order:
         gen = pool.imap(func, tasks, chunksize)
     else:
         gen = pool.imap_unordered(func, tasks, chunksize)
     for result in gen:
+        if isinstance(result, _StoppedTask):
+            raise result.error
         results.append(result)
         if skip_first:
             if len(results) < nproc * chunksize:
-- 
2.43.0

