From bbddb0bfd426fa6fb8355dc877f47a2d1c2d0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 01/13] fix: drop a shape queue once its batch is complete

An emptied queue stayed in the planner and counted toward max_shape_queues,
but is not part of the saved state: an uninterrupted run raised 'exceeded the
configured shape queue limit' where a run resumed from the same boundary
continued.
---
 dataset/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/planner.py b/dataset/planner.py
index 1060ed1..5af0c3f 100644
--- a/dataset/planner.py
+++ b/dataset/planner.py
@@ -639,7 +639,7 @@ class DatasetPlanner:
             queue = self._append_shape(envelope)
             if len(queue) == batch_size:
                 envelopes = tuple(queue)
-                self._shape_queues[envelope.shape_code] = []
+                del self._shape_queues[envelope.shape_code]
                 return self._make_batch(
                     envelopes,
                     (True,) * batch_size,
-- 
2.43.0


From f4820647e06275dbdce29184b448c54acc8cc28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 02/13] fix: read only decimal digits as a checkpoint iteration
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isdigit() accepts characters such as '²' that int() rejects, so one
such file name in the run directory made resuming fail.
---
 utils/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/file_utils.py b/utils/file_utils.py
index c956f0b..7cbb0e2 100644
--- a/utils/file_utils.py
+++ b/utils/file_utils.py
@@ -169,6 +169,6 @@ def get_iteration_from_ckpt_filename(model_name: str) -> int | None:
 
     parts = model_name.split("_")
     for part in reversed(parts):
-        if part.isdigit():
+        if part.isdecimal():
             return int(part)
     return None
-- 
2.43.0


From eec93ca6cb4e9e66a964c93f1ed552cc788b7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 03/13] fix: settle the last step's finite check before an
 emergency save

---
 trainer/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 0f3e9ff..0f43d5d 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -4105,6 +4105,10 @@ class BaseTrainer:
                 and self._last_state_save_iteration != st.iteration
             ):
                 try:
+                    # An interrupt may arrive while the last step's finite
+                    # check is still in flight; it must land before its state
+                    # can be committed.
+                    self._drain_pending_step_validity(include_current=True)
                     self._save_checkpoint(force_state=True)
                 except BaseException as save_exc:
                     accelerator.print(
-- 
2.43.0


From bbb8a3fab34d2e2f4349d5d78f61dcb8dd4a047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 04/13] fix: apply the board symmetry before padding and to the
 recorded moves

The streamed readers post-processed a record (padding it to fixed_board_size
and turning its position into position_string/last_move) before applying the
symmetry, so padded planes were flipped into the padding, flat policies of
padded boards were refused, and the recorded moves kept their orientation.
---
 dataset/decoder.py       | 27 ++++++++++++++++-----------
 dataset/katago.py        | 21 ++++++++++++++++-----
 dataset/packed_binary.py | 36 +++++++++++++++++++++++++-----------
 dataset/simple_binary.py | 17 +++++++++--------
 dataset/sparse_numpy.py  |  7 +++++--
 5 files changed, 71 insertions(+), 37 deletions(-)

diff --git a/dataset/decoder.py b/dataset/decoder.py
index aa33a86..5317de2 100644
--- a/dataset/decoder.py
+++ b/dataset/decoder.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import os
-import copy
 import threading
 import struct
 import zipfile
@@ -999,15 +998,9 @@ class NpzRowRecordDecoder:
             raise RuntimeError(
                 f"{self.format_id} row {index} is outside {length} rows"
             )
-        sample = self.prepare_row(data, index)
-        if sample is None:
-            raise RuntimeError(
-                f"{self.format_id} record changed at row {index}"
-            )
-        if self.apply_symmetry:
+        def pick_symmetry(board_size):
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(v) for v in np.asarray(sample["board_size"]))
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -1016,9 +1009,21 @@ class NpzRowRecordDecoder:
                 "symmetry",
                 (self._active_epoch, ref.sample_key, 0),
             )
-            sample = post_process_data(
-                copy.deepcopy(sample),
+            return symmetry_index
+
+        # The row preparation pads to a fixed board size, so it has to apply the
+        # symmetry itself, while the planes still have the size of the board.
+        if self.apply_symmetry:
+            sample = self.prepare_row(
+                data,
+                index,
                 symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
+                pick_symmetry=pick_symmetry,
+            )
+        else:
+            sample = self.prepare_row(data, index)
+        if sample is None:
+            raise RuntimeError(
+                f"{self.format_id} record changed at row {index}"
             )
         return sample
diff --git a/dataset/katago.py b/dataset/katago.py
index 88ec305..916dc77 100644
--- a/dataset/katago.py
+++ b/dataset/katago.py
@@ -228,18 +228,29 @@ class KatagoNumpyDataset(Dataset):
     def __len__(self):
         return self.length
 
-    def __getitem__(self, index):
+    def prepare_row(self, index, symmetry_type=None, pick_symmetry=None):
         data = {k: self.data_dict[k][index] for k in self.data_dict}
         return post_process_data(
             data,
             self.fixed_side_input,
             self.fixed_board_size,
-            self.apply_symmetry,
-            symmetry_index=_map_symmetry_index(
-                self, index, tuple(int(value) for value in data["board_size"])
+            symmetry_type,
+            symmetry_index=(
+                None
+                if pick_symmetry is None
+                else pick_symmetry(
+                    tuple(int(value) for value in data["board_size"])
+                )
             ),
         )
 
+    def __getitem__(self, index):
+        return self.prepare_row(
+            index,
+            self.apply_symmetry,
+            lambda board_size: _map_symmetry_index(self, index, board_size),
+        )
+
     def map_record_ref(self, index):
         board_size = tuple(
             int(value) for value in self.data_dict["board_size"][index]
@@ -334,7 +345,7 @@ class IterativeKatagoNumpyDataset(PlannedBatchDataset):
             "raw-katago-npz",
             runtime_context,
             load,
-            lambda dataset, index: dataset[index],
+            KatagoNumpyDataset.prepare_row,
             apply_symmetry=symmetry,
             catalog_rows=lambda dataset, length: (
                 None,
diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 490dad4..640c93f 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from utils.winrate_model import WinrateModel
@@ -308,12 +307,11 @@ class PackedBinaryDataset(PlannedBatchDataset):
             return raw_entry_metadata(raw_entry)[2]
 
         def materialize_entry(entry, record_key, epoch, subrecord):
-            data = reader._process_subrecord(entry, subrecord)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._process_subrecord(entry, subrecord)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry.boardsize, entry.boardsize)
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -322,8 +320,9 @@ class PackedBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
+            return reader._process_subrecord(
+                entry,
+                subrecord,
                 symmetry_type=self.apply_symmetry,
                 symmetry_index=symmetry_index,
             )
@@ -427,7 +426,13 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return policy if self.has_pass_move else policy.reshape(boardsize)
 
-    def _process_entry(self, entry: EntryData, selected_subrecord: int) -> dict | None:
+    def _process_entry(
+        self,
+        entry: EntryData,
+        selected_subrecord: int,
+        symmetry_type=None,
+        symmetry_index=None,
+    ) -> dict | None:
         # Skip other rules and board sizes
         boardsize = (entry.boardsize, entry.boardsize)
         if str(entry.rule) not in self.rules:
@@ -483,7 +488,8 @@ class PackedBinaryDataset(PlannedBatchDataset):
                     data,
                     fixed_side_input=self.fixed_side_input,
                     fixed_board_size=self.fixed_board_size,
-                    symmetry_type=self.apply_symmetry,
+                    symmetry_type=symmetry_type or self.apply_symmetry,
+                    symmetry_index=symmetry_index,
                     drop_extra=self.drop_extra,
                 )
 
@@ -496,6 +502,14 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return None
 
-    def _process_subrecord(self, entry: EntryData, subrecord: int) -> dict | None:
+    def _process_subrecord(
+        self,
+        entry: EntryData,
+        subrecord: int,
+        symmetry_type=None,
+        symmetry_index=None,
+    ) -> dict | None:
         """Replay only far enough to materialize the selected move sample."""
-        return self._process_entry(entry, int(subrecord))
+        return self._process_entry(
+            entry, int(subrecord), symmetry_type, symmetry_index
+        )
diff --git a/dataset/simple_binary.py b/dataset/simple_binary.py
index 976686f..0f671a1 100644
--- a/dataset/simple_binary.py
+++ b/dataset/simple_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from . import DATASETS
@@ -165,12 +164,11 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             return self.fixed_board_size or boardsize
 
         def materialize_entry(entry, record_key, epoch):
-            data = reader._prepare_data_from_entry(*entry)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._prepare_data_from_entry(*entry)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry[2], entry[2])
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -179,8 +177,8 @@ class SimpleBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
+            return reader._prepare_data_from_entry(
+                *entry,
                 symmetry_type=self.apply_symmetry,
                 symmetry_index=symmetry_index,
             )
@@ -237,6 +235,8 @@ class SimpleBinaryDataset(PlannedBatchDataset):
         rule: Rule,
         move: Move,
         position: list[Move],
+        symmetry_type=None,
+        symmetry_index=None,
     ):
         # Skip other rules and board sizes
         boardsize = (bsize, bsize)
@@ -276,7 +276,8 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             data,
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
-            symmetry_type=self.apply_symmetry,
+            symmetry_type=symmetry_type or self.apply_symmetry,
+            symmetry_index=symmetry_index,
             drop_extra=self.drop_extra,
         )
         return data
diff --git a/dataset/sparse_numpy.py b/dataset/sparse_numpy.py
index b63843f..a40ea2c 100644
--- a/dataset/sparse_numpy.py
+++ b/dataset/sparse_numpy.py
@@ -204,7 +204,9 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
             "policy_target": policy_target,
         }, len(stm_input)
 
-    def _prepare_entry_data(self, data_dict, index):
+    def _prepare_entry_data(
+        self, data_dict, index, symmetry_type=None, pick_symmetry=None
+    ):
         data = {}
         for key in data_dict.keys():
             if data_dict[key].ndim == 1:
@@ -221,7 +223,8 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
             data,
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
-            symmetry_type=self.apply_symmetry,
+            symmetry_type=symmetry_type or self.apply_symmetry,
+            symmetry_index=None if pick_symmetry is None else pick_symmetry(board_size),
             drop_extra=self.drop_extra,
         )
         # Convert unsigned feature storage to PyTorch-compatible signed types.
-- 
2.43.0


From 2ee48ea87a2786e0ca7b1fe60d71bbefe00d8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:09 +0000
Subject: [PATCH 05/13] fix: replay a packed initial position from black's
 first move

---
 dataset/packed_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 640c93f..ebd3526 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -443,7 +443,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
         current_result = entry.result
         current_position = entry.init_position.copy()
         current_ply = len(current_position)
-        current_stm_input = -1 if current_ply % 2 == 0 else 1  # (Black = -1, White = 1)
+        current_stm_input = -1  # black moves first (Black = -1, White = 1)
 
         # setup inital board input
         current_board_input = np.zeros((2, boardsize[0], boardsize[1]), dtype=np.int8)
-- 
2.43.0


From 3528bb1d70d961e7f753c8f8bf74738a0e87bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:09 +0000
Subject: [PATCH 06/13] fix: refuse packed moves outside the board instead of
 moving the policy mass

---
 dataset/packed_binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index ebd3526..bbeec60 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -391,6 +391,8 @@ class PackedBinaryDataset(PlannedBatchDataset):
     def _setup_policy_target(self, boardsize: tuple[int, int], movedata: MoveData):
         H, W = boardsize
         policy = np.zeros(H * W + (1 if self.has_pass_move else 0), dtype=np.float32)
+        if any(not move.is_pass and (move.x >= W or move.y >= H) for move in movedata.moves):
+            raise RuntimeError("packed move lies outside the board")
 
         # single bestmove
         move, besteval = movedata[0]
-- 
2.43.0


From 1419e5fd6236290b8c70b3ac90a379fa4513f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:25 +0000
Subject: [PATCH 07/13] fix: long evaluations refused equal VQ constants as
 differing across ranks

---
 dataset/core.py            | 6 +++---
 trainer/loss/supervised.py | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dataset/core.py b/dataset/core.py
index 1f1e5c3..27c60cd 100644
--- a/dataset/core.py
+++ b/dataset/core.py
@@ -967,9 +967,9 @@ def _constant_mean(
         raise ValueError(f"replicated constant {sum_key!r} has no replicas")
     mean = tensors[sum_key] / replicas
     variance = tensors[square_sum_key] / replicas - mean.square()
-    tolerance = 16 * torch.finfo(mean.dtype).eps * torch.maximum(
-        torch.ones_like(mean), mean.square()
-    )
+    tolerance = 16 * max(
+        torch.finfo(mean.dtype).eps, torch.finfo(torch.float32).eps
+    ) * torch.maximum(torch.ones_like(mean), mean.square())
     if torch.any(variance.abs() > tolerance):
         raise ValueError(f"replicated constant {sum_key!r} differs across ranks")
     return mean
diff --git a/trainer/loss/supervised.py b/trainer/loss/supervised.py
index 152b60d..b6f20e3 100644
--- a/trainer/loss/supervised.py
+++ b/trainer/loss/supervised.py
@@ -735,10 +735,13 @@ def _evaluation_aux_output_statistics(results):
         if name.startswith("vq_cluster_size_q") or name == "vq_num_expired_codes":
             if not isinstance(value, torch.Tensor) or value.ndim != 0:
                 raise ValueError(f"{name} must be a scalar replicated constant")
+            # one replica per evaluated batch: sum them in double precision, or
+            # rounding alone makes equal constants look different across ranks
+            constant = value.detach().double()
             typed[name] = SufficientStats(
                 "evaluation",
                 "replicated_constant_v1",
-                {"sum": value.detach(), "square_sum": value.detach().square()},
+                {"sum": constant, "square_sum": constant.square()},
                 {"replicas": 1},
             )
             continue
-- 
2.43.0


From f0cba586343f5216bad0499c7e4f30800c881e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:25 +0000
Subject: [PATCH 08/13] fix: an evaluation mean without values was reported as
 NaN

---
 trainer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 0f43d5d..4666b4a 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -4537,6 +4537,8 @@ class BaseTrainer:
                     torch.tensor(v.count, dtype=torch.long, device=accelerator.device),
                     reduction="sum",
                 )
+                if int(total_count.item()) == 0:
+                    raise RuntimeError(f"evaluation mean {k!r} has no values")
                 finalized_stats[k] = total_sum / total_count.to(total_sum.dtype)
                 continue
             if isinstance(v, Maximum):
-- 
2.43.0


From d282590489e5a360986900b3b11821e7511e0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 09/13] fix: evaluation crashed on a rank whose share of a
 batch is all padding

---
 utils/training_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 145a5bb..f7491d4 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1221,10 +1221,11 @@ def cross_entropy_with_softlabel(
 
     if input.ndim > 1:
         # Cross-entropy Loss
-        input = input.view(input.shape[0], -1)
-        target = target.view(target.shape[0], -1)
+        # flatten, unlike view(n, -1), also accepts a batch without rows
+        input = torch.flatten(input, start_dim=1)
+        target = torch.flatten(target, start_dim=1)
         if weight is not None:
-            target = target * weight.view(weight.shape[0], -1)
+            target = target * torch.flatten(weight, start_dim=1)
 
         logprobs = F.log_softmax(input, dim=1)
         if focal_gamma > 0.0:
-- 
2.43.0


From 2f44a59490a944aaa5d22b954a6bb86ad889ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:01 +0000
Subject: [PATCH 10/13] fix: a filter function call could overwrite a field
 through its output argument

---
 dataset/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index cf0dc5c..0e79d38 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -217,6 +217,11 @@ class SafeFilterEvaluator:
                 raise self._error(node, "only whitelisted NumPy functions may be called")
             if node.keywords:
                 raise self._error(node, "keyword arguments are forbidden")
+            # a ufunc takes further positional arguments as output arrays
+            if len(node.args) != function.nin:
+                raise self._error(
+                    node, f"{function.__name__} takes {function.nin} operand(s)"
+                )
             args = [self._eval(arg) for arg in node.args]
             arrays = [arg for arg in args if isinstance(arg, np.ndarray)]
             if arrays:
-- 
2.43.0


From a8978c6a6cf7130866321a330e38828bf818cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:03 +0000
Subject: [PATCH 11/13] fix: filter expressions could build integers and
 sequences without bound

---
 dataset/filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index 0e79d38..01aa1ef 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -83,6 +83,8 @@ class SafeFilterEvaluator:
             self._check_depth(child, depth + 1)
 
     def _check_array(self, value: Any, context: str, *, allocated: bool = True) -> Any:
+        if isinstance(value, int) and not -(1 << 63) <= value < (1 << 63):
+            raise ValueError(f"{context} is outside signed 64-bit range")
         if not isinstance(value, np.ndarray):
             return value
         if value.dtype.kind not in _ALLOWED_DTYPES:
@@ -244,6 +246,9 @@ class SafeFilterEvaluator:
     def _check_broadcast(self, left: Any, right: Any, node: ast.AST) -> None:
         shapes = [value.shape for value in (left, right) if isinstance(value, np.ndarray)]
         if not shapes:
+            if isinstance(left, tuple) or isinstance(right, tuple):
+                # without an array these are Python's sequence operators
+                raise self._error(node, "literal sequences need an array operand")
             return
         try:
             shape = np.broadcast_shapes(*shapes)
-- 
2.43.0


From 4e2fee5474772b9f27d380f3f16eff8ee9d89dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:04 +0000
Subject: [PATCH 12/13] fix: a chained comparison in a filter could exceed the
 intermediate limit

---
 dataset/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index 01aa1ef..1f0b2e0 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -184,6 +184,8 @@ class SafeFilterEvaluator:
                 right = self._eval(comparator)
                 self._check_broadcast(left, right, node)
                 part = self._check_array(_COMPARE[type(op_node)](left, right), "comparison intermediate")
+                if result is not None:
+                    self._check_broadcast(result, part, node)
                 result = part if result is None else np.logical_and(result, part)
                 left = right
             return result
-- 
2.43.0


From 7b587619aa744f39d077f469fdd0c95fbc3ea301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:10 +0000
Subject: [PATCH 13/13] fix: an iterator over a streamed dataset drew from the
 global random generator

---
 utils/training_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index f7491d4..77cc207 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1111,6 +1111,10 @@ def build_data_loader(
         # than the vectorized assembly itself) and disable automatic batching.
         # Pinning costs more per batch than the pageable H2D copy it saves at
         # these batch sizes, so default it off here (still overridable).
+        # Every iterator draws a base seed, even in-process. Keep that off the
+        # global torch RNG so that rebuilding an iterator after resume is
+        # transparent to the model.
+        kwargs.setdefault("generator", torch.Generator())
         return DataLoader(
             dataset,
             batch_size=None,
-- 
2.43.0

