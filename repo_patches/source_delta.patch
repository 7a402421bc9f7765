From 1b095a87deca4541605b522ddf654f9bd0f4031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 01/74] fix: EpisodeRolloutHookMerged reports the keys that
 really overlap

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 514db4c..a89c617 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1500,7 +1500,7 @@ class EpisodeRolloutHookMerged(EpisodeRolloutHook):
                 continue
 
             if self.check_overlapping_keys and (
-                duplicated_entries := set(new_entries).difference(result)
+                duplicated_entries := set(new_entries).intersection(result)
             ):
                 raise KeyError(
                     f"Combined rollout hook {rollout_hook} leads to previously "
-- 
2.43.0


From 915b21e17a0c6a9281ca4a1792036ebde7dc6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 02/74] fix: Collector resets tensor hidden states of finished
 episodes

---
 tianshou/data/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index a89c617..ed9de53 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1066,7 +1066,8 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
         last_hidden_state_RH: np.ndarray | torch.Tensor | Batch | None,
     ) -> None:
         if isinstance(last_hidden_state_RH, torch.Tensor):
-            last_hidden_state_RH[env_ind_local_D].zero_()  # type: ignore[index]
+            # indexing with an array copies, so the zeros have to be assigned
+            last_hidden_state_RH[env_ind_local_D] = 0
         elif isinstance(last_hidden_state_RH, np.ndarray):
             last_hidden_state_RH[env_ind_local_D] = (
                 None if last_hidden_state_RH.dtype == object else 0
-- 
2.43.0


From d01fbb150f4688d32edd15ae4b98ff71e35d43a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 03/74] fix: ReplayBuffer.from_data marks the last transition
 as the most recent one

---
 tianshou/data/buffer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5c4451d..99559f4 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -280,6 +280,8 @@ class ReplayBuffer:
         batch = cast(RolloutBatchProtocol, batch)
         buf.set_batch(batch)
         buf._size = size
+        # the buffer is full, its most recent transition is the last one
+        buf.last_index[0] = size - 1
         return buf
 
     def reset(self, keep_statistics: bool = False) -> None:
-- 
2.43.0


From e81067e82aaf45d64c8c0e8019736354a32126ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 04/74] fix: MovAvg excludes every NaN, not only the np.nan
 object

---
 tianshou/utils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index 779b0ba..560540c 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -43,7 +43,7 @@ class MovAvg:
         if np.isscalar(data_array):
             data_array = [data_array]
         for number in data_array:  # type: ignore
-            if number not in self.banned:
+            if np.isfinite(number):
                 self.cache.append(number)
         if self.size > 0 and len(self.cache) > self.size:
             self.cache = self.cache[-self.size :]
-- 
2.43.0


From 5294b2fed962b3ce37536514fc62ba0b4abebc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 05/74] fix: ReplayBuffer.add rejects buffer_ids other than [0]

---
 tianshou/data/buffer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 99559f4..1f3b92b 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -443,7 +443,7 @@ class ReplayBuffer:
         """True when instead of passing a batch of shape (len(data)), a batch of shape (1, len(data)) is passed."""
 
         if buffer_ids is not None:
-            if len(buffer_ids) != 1 and buffer_ids[0] != 0:
+            if len(buffer_ids) != 1 or buffer_ids[0] != 0:
                 raise ValueError(
                     "If `buffer_ids` is not None, it must be a single element with value 0 for the non-vectorized `ReplayBuffer`. "
                     f"Got {buffer_ids=}.",
-- 
2.43.0


From 9a6f339fae21996795702823d3547478921a63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/74] fix: ReplayBuffer.update moves the start of the next
 episode behind the moved data

---
 tianshou/data/buffer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 1f3b92b..dd7c7a1 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -345,6 +345,9 @@ class ReplayBuffer:
         if len(self._meta.get_keys()) == 0:
             self._meta = create_value(buffer._meta, self.maxsize, stack=False)  # type: ignore
         self._meta[updated_indices] = buffer._meta[from_indices]
+        if self._meta.done[updated_indices[-1]]:
+            # the next transition to be added starts a new episode
+            self._ep_start_idx = self._insertion_idx
         return updated_indices
 
     def _update_state_pre_add(
-- 
2.43.0


From 2874833f654e45c60ce6b8e187bbd93a9e911d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 07/74] fix: sub-buffers share the manager's memory again after
 pickling, copying or loading

---
 tianshou/data/buffer/cached.py  |  8 ++++++++
 tianshou/data/buffer/manager.py | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/cached.py b/tianshou/data/buffer/cached.py
index 6c7a6e1..220cb97 100644
--- a/tianshou/data/buffer/cached.py
+++ b/tianshou/data/buffer/cached.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import numpy as np
 
 from tianshou.data import ReplayBuffer, ReplayBufferManager
@@ -43,6 +45,12 @@ class CachedReplayBuffer(ReplayBufferManager):
         self.cached_buffers = self.buffers[1:]
         self.cached_buffer_num = cached_buffer_num
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # loading from HDF5 creates separate objects for these
+        self.main_buffer = self.buffers[0]
+        self.cached_buffers = self.buffers[1:]
+
     def add(
         self,
         batch: RolloutBatchProtocol,
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index e8176aa..0a21171 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -1,5 +1,5 @@
 from collections.abc import Sequence
-from typing import Union, cast
+from typing import Any, Union, cast
 
 import numpy as np
 from numba import njit
@@ -82,6 +82,14 @@ class ReplayBufferManager(ReplayBuffer):
         super().set_batch(batch)
         self._set_batch_for_children()
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # copying and unpickling turn the sub-buffers' views on the contiguous memory into
+        # independent batches, so they have to be linked again
+        if len(self._meta.get_keys()) > 0:
+            for offset, buf in zip(self._offset, self.buffers, strict=True):
+                buf._meta = self._meta[offset : offset + buf.maxsize]
+
     def unfinished_index(self) -> np.ndarray:
         return np.concatenate(
             [
-- 
2.43.0


From 64188ec2f11c587d9ed19f19315c16b961e8ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 08/74] fix: PrioritizedReplayBuffer.reset also clears the
 priorities

---
 tianshou/data/buffer/prio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index ac0220f..463ace5 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -43,6 +43,12 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         self.options.update(alpha=alpha, beta=beta)
         self._weight_norm = weight_norm
 
+    def reset(self, keep_statistics: bool = False) -> None:
+        super().reset(keep_statistics)
+        # sub-buffers of a manager have no weights of their own
+        if "weight" in self.__dict__:
+            self.weight = SegmentTree(self.maxsize)
+
     def init_weight(self, index: int | np.ndarray) -> None:
         self.weight[index] = self._max_prio**self._alpha
 
-- 
2.43.0


From d4a8839c0858b43292ef29f6e9129fb20b6ceeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 09/74] fix: PrioritizedVectorReplayBuffer.set_beta takes
 effect on the returned weights

---
 tianshou/data/buffer/vecbuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/vecbuf.py b/tianshou/data/buffer/vecbuf.py
index 00b2560..3dcd6a0 100644
--- a/tianshou/data/buffer/vecbuf.py
+++ b/tianshou/data/buffer/vecbuf.py
@@ -62,6 +62,7 @@ class PrioritizedVectorReplayBuffer(PrioritizedReplayBufferManager):
         super().__init__(buffer_list)
 
     def set_beta(self, beta: float) -> None:
+        super().set_beta(beta)
         for buffer in self.buffers:
             buffer.set_beta(beta)
 
-- 
2.43.0


From 1a39aea6a003e4c86c224e4f877f09710e95355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 10/74] fix: observations from shared memory no longer change
 after they were returned

---
 tianshou/env/worker/subproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index 7756f6e..e72afdf 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -182,7 +182,8 @@ class SubprocEnvWorker(EnvWorker):
             buffer: dict | tuple | ShArray | None,
         ) -> dict | tuple | np.ndarray:
             if isinstance(buffer, ShArray):
-                return buffer.get()
+                # copy, since the next step of the worker overwrites the shared memory
+                return buffer.get().copy()
             if isinstance(buffer, tuple):
                 return tuple([decode_obs(b) for b in buffer])
             if isinstance(buffer, dict):
-- 
2.43.0


From a82cc0e3df60ab054161402eb9722188713a629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 11/74] fix: RayEnvWorker.wait works with fewer stepping envs
 than wait_num

---
 tianshou/env/worker/ray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/env/worker/ray.py b/tianshou/env/worker/ray.py
index 76b8422..0607ea3 100644
--- a/tianshou/env/worker/ray.py
+++ b/tianshou/env/worker/ray.py
@@ -51,6 +51,8 @@ class RayEnvWorker(EnvWorker):
         timeout: float | None = None,
     ) -> list["RayEnvWorker"]:
         results = [x.result for x in workers]
+        # ray does not accept waiting for more results than there are
+        wait_num = min(wait_num, len(results))
         ready_results, _ = ray.wait(results, num_returns=wait_num, timeout=timeout)
         return [workers[results.index(result)] for result in ready_results]
 
-- 
2.43.0


From 58c8431da592c2096905b5c2fb5b176737358ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 12/74] fix: Batch addition matches the entries by key

---
 tianshou/data/batch.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 70478a8..5831d09 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -803,14 +803,15 @@ class Batch(BatchProtocol):
     def __iadd__(self, other: Self | Number | np.number) -> Self:
         """Algebraic addition with another Batch instance in-place."""
         if isinstance(other, Batch):
-            for (batch_key, obj), value in zip(
-                self.__dict__.items(),
-                other.__dict__.values(),
-                strict=True,
-            ):  # TODO are keys consistent?
+            if set(self.get_keys()) != set(other.get_keys()):
+                raise ValueError(
+                    f"Only batches with the same keys can be added, "
+                    f"got {sorted(self.get_keys())} and {sorted(other.get_keys())}.",
+                )
+            for batch_key, obj in self.__dict__.items():
                 if isinstance(obj, Batch) and len(obj.get_keys()) == 0:
                     continue
-                self.__dict__[batch_key] += value
+                self.__dict__[batch_key] += other.__dict__[batch_key]
             return self
         if _is_number(other):
             for batch_key, obj in self.items():
-- 
2.43.0


From 7060f36066d057fbe74f7fcf8574195ffe9b0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 13/74] fix: in-place transformations of a Batch keep its
 nested batches

---
 tianshou/data/batch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 5831d09..081d9a1 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -1377,7 +1377,9 @@ def _apply_batch_values_func_recursively(
     result = batch if inplace else deepcopy(batch)
     for key, val in batch.__dict__.items():
         if isinstance(val, BatchProtocol):
-            result[key] = _apply_batch_values_func_recursively(val, values_transform, inplace=False)
+            new_val = _apply_batch_values_func_recursively(val, values_transform, inplace=inplace)
+            if not inplace:
+                result[key] = new_val
         else:
             result[key] = values_transform(val)
     if not inplace:
-- 
2.43.0


From 6a197908bed02f70172a2b0778c29d7133bab5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 14/74] fix: a training resumed at max_epoch performs no
 further epoch

---
 tianshou/trainer/base.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 355c9d3..a1ea05d 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -317,14 +317,13 @@ class BaseTrainer(ABC):
         self.epoch += 1
         self.iter_num += 1
 
-        if self.iter_num > 1:
-            # iterator exhaustion check
-            if self.epoch > self.max_epoch:
-                raise StopIteration
-
-            # exit flag 1, when stop_fn succeeds in train_step or test_step
-            if self.stop_fn_flag:
-                raise StopIteration
+        # iterator exhaustion check, a resumed training may already have reached max_epoch
+        if self.epoch > self.max_epoch:
+            raise StopIteration
+
+        # exit flag 1, when stop_fn succeeds in train_step or test_step
+        if self.iter_num > 1 and self.stop_fn_flag:
+            raise StopIteration
 
         # perform n step_per_epoch
         steps_done_in_this_epoch = 0
-- 
2.43.0


From 506993f5a802dd07c29bc072ca9e0af97173c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 15/74] fix: BaseTrainer.reset also resets the gradient step
 and episode counters

---
 tianshou/trainer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index a1ea05d..3da5d74 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -264,6 +264,8 @@ class BaseTrainer(ABC):
         """Initialize or reset the instance to yield a new iterator from zero."""
         self.is_run = False
         self.env_step = 0
+        self.env_episode = 0
+        self._gradient_step = 0
         if self.resume_from_log:
             (
                 self.start_epoch,
-- 
2.43.0


From 504c4d591935378541d662066777483433438a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 16/74] fix: BaseTrainer.run resets once and heeds
 reset_prior_to_run

---
 tianshou/trainer/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 3da5d74..29458c5 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -311,7 +311,9 @@ class BaseTrainer(ABC):
         self.iter_num = 0
 
     def __iter__(self):  # type: ignore
-        self.reset(reset_collectors=True, reset_buffer=False)
+        # run has already reset the trainer
+        if not self.is_run:
+            self.reset(reset_collectors=True, reset_buffer=False)
         return self
 
     def __next__(self) -> EpochStats:
@@ -623,8 +625,7 @@ class BaseTrainer(ABC):
             Then it will also reset the buffer. This is usually not necessary, use
             with caution.
         """
-        if reset_prior_to_run:
-            self.reset(reset_buffer=reset_buffer)
+        self.reset(reset_collectors=reset_prior_to_run, reset_buffer=reset_buffer)
         try:
             self.is_run = True
             deque(self, maxlen=0)  # feed the entire iterator into a zero-length deque
-- 
2.43.0


From c4b4c4854655f29480d143af7ad10b05ef165e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 17/74] fix: a test during training that ends it also updates
 and saves the best policy

---
 tianshou/trainer/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 29458c5..694562f 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -570,9 +570,14 @@ class BaseTrainer(ABC):
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
                     should_stop_training = True
-                    self.best_reward = test_result.returns_stat.mean
-                    self.best_reward_std = test_result.returns_stat.std
-                    self.best_score = self.compute_score_fn(test_result)
+                    score = self.compute_score_fn(test_result)
+                    if self.best_epoch < 0 or self.best_score < score:
+                        self.best_score = score
+                        self.best_epoch = self.epoch
+                        self.best_reward = test_result.returns_stat.mean
+                        self.best_reward_std = test_result.returns_stat.std
+                        if self.save_best_fn:
+                            self.save_best_fn(self.policy)
 
         return should_stop_training
 
-- 
2.43.0


From 04d9ff5d43adf6a0d000fcc63e99db672c58ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 18/74] fix: AsyncCollector supports vector actions and
 policies without state or policy entries

---
 tianshou/data/collector.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index ed9de53..9122116 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1116,7 +1116,8 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_hidden_state_in_all_envs_EH: np.ndarray | torch.Tensor | Batch | None = copy(
             self._pre_collect_hidden_state_RH,
         )
-        self._current_action_in_all_envs_EA: np.ndarray = np.empty(self.env_num)
+        # allocated when the first actions are computed, since only then their shape and type are known
+        self._current_action_in_all_envs_EA: np.ndarray | None = None
         self._current_policy_in_all_envs_E: Batch | None = None
 
     def reset(
@@ -1146,7 +1147,7 @@ class AsyncCollector(Collector[CollectStats]):
         self._current_obs_in_all_envs_EO = copy(self._pre_collect_obs_RO)
         self._current_info_in_all_envs_E = copy(self._pre_collect_info_R)
         self._current_hidden_state_in_all_envs_EH = copy(self._pre_collect_hidden_state_RH)
-        self._current_action_in_all_envs_EA = np.empty(self.env_num)
+        self._current_action_in_all_envs_EA = None
         self._current_policy_in_all_envs_E = None
         return result
 
@@ -1205,14 +1206,9 @@ class AsyncCollector(Collector[CollectStats]):
                 raise RuntimeError(
                     "Current obs is None, did you call reset or pass reset_at_collect=True?",
                 )
-            if (
-                not len(self._current_obs_in_all_envs_EO)
-                == len(self._current_action_in_all_envs_EA)
-                == self.env_num
-            ):  # major difference
+            if len(self._current_obs_in_all_envs_EO) != self.env_num:  # major difference
                 raise RuntimeError(
-                    f"{len(self._current_obs_in_all_envs_EO)=} and"
-                    f"{len(self._current_action_in_all_envs_EA)=} have to equal"
+                    f"{len(self._current_obs_in_all_envs_EO)=} has to equal"
                     f" {self.env_num=} as it tracks the current transition"
                     f"in all envs",
                 )
@@ -1227,6 +1223,12 @@ class AsyncCollector(Collector[CollectStats]):
             )
 
             # save act_RA/policy_R/ hidden_state_RH before env.step
+            if self._current_action_in_all_envs_EA is None:
+                act_R = collect_batch_R.act
+                self._current_action_in_all_envs_EA = np.empty(
+                    (self.env_num, *act_R.shape[1:]),
+                    dtype=act_R.dtype,
+                )
             self._current_action_in_all_envs_EA[ready_env_ids_R] = collect_batch_R.act
             if self._current_policy_in_all_envs_E:
                 self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
@@ -1267,7 +1269,10 @@ class AsyncCollector(Collector[CollectStats]):
                 Batch(
                     obs=self._current_obs_in_all_envs_EO[ready_env_ids_R],
                     act=self._current_action_in_all_envs_EA[ready_env_ids_R],
-                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R],
+                    # the policy may not produce any entries
+                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R]
+                    if self._current_policy_in_all_envs_E.get_keys()
+                    else Batch(),
                     obs_next=obs_next_RO,
                     rew=rew_R,
                     terminated=terminated_R,
@@ -1298,7 +1303,7 @@ class AsyncCollector(Collector[CollectStats]):
             last_obs_RO = copy(obs_next_RO)
             last_info_R = copy(info_R)
             last_hidden_state_RH = copy(
-                self._current_hidden_state_in_all_envs_EH[ready_env_ids_R],  # type: ignore[index]
+                _nullable_slice(self._current_hidden_state_in_all_envs_EH, ready_env_ids_R),
             )
             if num_episodes_done_this_iter:
                 env_ind_local_D = np.where(done_R)[0]
-- 
2.43.0


From 66f0b2fcb24035ca01d047fca864d4b0cedaaf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 19/74] fix: AsyncCollector.reset_env waits for all stepping
 envs

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 9122116..f452a1b 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1157,7 +1157,7 @@ class AsyncCollector(Collector[CollectStats]):
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> tuple[np.ndarray, np.ndarray]:
         # we need to step through the envs and wait until they are ready to be able to interact with them
-        if self.env.waiting_id:
+        while self.env.waiting_id:
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
-- 
2.43.0


From 2ed8d37deab3d21170c47e203361e4b1535ddb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 20/74] fix: async step of a vector env returns all the results
 it waited for

---
 tianshou/env/venvs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/venvs.py b/tianshou/env/venvs.py
index e9309f9..adc4877 100644
--- a/tianshou/env/venvs.py
+++ b/tianshou/env/venvs.py
@@ -298,7 +298,8 @@ class BaseVectorEnv:
             while not ready_conns:
                 ready_conns = self.worker_class.wait(self.waiting_conn, self.wait_num, self.timeout)
             result = []
-            for conn in ready_conns:
+            # wait may return the list of waiting workers itself, which is modified below
+            for conn in list(ready_conns):
                 waiting_index = self.waiting_conn.index(conn)
                 self.waiting_conn.pop(waiting_index)
                 env_id = self.waiting_id.pop(waiting_index)
-- 
2.43.0


From 9182eafcbeca27b43dbcac8e91bd981a9c2ffa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 21/74] fix: wrapped asynchronous vector envs can be reset by
 the AsyncCollector

---
 tianshou/env/venv_wrappers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tianshou/env/venv_wrappers.py b/tianshou/env/venv_wrappers.py
index 9297dde..310c2d0 100644
--- a/tianshou/env/venv_wrappers.py
+++ b/tianshou/env/venv_wrappers.py
@@ -22,6 +22,11 @@ class VectorEnvWrapper(BaseVectorEnv):
     def __len__(self) -> int:
         return len(self.venv)
 
+    @property
+    def waiting_id(self) -> list[int]:  # type: ignore[override]
+        """The ids of the envs that are currently stepping, needed by the AsyncCollector."""
+        return self.venv.waiting_id
+
     def __getattribute__(self, key: str) -> Any:
         if key in GYM_RESERVED_KEYS:  # reserved keys in gym.Env
             return getattr(self.venv, key)
-- 
2.43.0


From 473fc9e2366a88868385997ab00bccf1ec73f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 22/74] fix: ReplayBuffer.update moves all transitions of a
 vector buffer with sample_avail

---
 tianshou/data/buffer/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index dd7c7a1..0edf52c 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -330,9 +330,15 @@ class ReplayBuffer:
         """
         if len(buffer) == 0 or self.maxsize == 0:
             return np.array([], int)
-        stack_num, buffer.stack_num = buffer.stack_num, 1
+        # all stored transitions are moved, whatever the options for sampling are; the
+        # sub-buffers of a buffer manager have their own stack_num
+        sources = [buffer, *getattr(buffer, "buffers", [])]
+        stack_nums = [source.stack_num for source in sources]
+        for source in sources:
+            source.stack_num = 1
         from_indices = buffer.sample_indices(0)  # get all available indices
-        buffer.stack_num = stack_num
+        for source, stack_num in zip(sources, stack_nums, strict=True):
+            source.stack_num = stack_num
         if len(from_indices) == 0:
             return np.array([], int)
         updated_indices = []
-- 
2.43.0


From 8090f6be635881ca178cae3a1ec54966bd6c168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 23/74] fix: arrays of str keep their type when saved to HDF5

---
 tianshou/data/utils/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/data/utils/converter.py b/tianshou/data/utils/converter.py
index acda782..02b9292 100644
--- a/tianshou/data/utils/converter.py
+++ b/tianshou/data/utils/converter.py
@@ -119,6 +119,9 @@ def to_hdf5(x: Hdf5ConvertibleType, y: h5py.Group, compression: str | None = Non
             y[k].attrs["__data_type__"] = "Tensor"
         elif isinstance(v, np.ndarray):
             try:
+                if v.dtype == object:
+                    # h5py would store an array of str, but give it back as an array of bytes
+                    raise TypeError("Arrays of objects are pickled.")
                 # NumPy arrays are written to datasets
                 y.create_dataset(k, data=v, compression=compression)
                 y[k].attrs["__data_type__"] = "ndarray"
-- 
2.43.0


From 050e61e0c0ea38a3a90fd5bdee82f2f21c839c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 24/74] fix: sample_indices returns an empty array when nothing
 can be sampled, as documented

---
 tianshou/data/buffer/base.py    | 4 +++-
 tianshou/data/buffer/manager.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 0edf52c..814c2e8 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -506,6 +506,8 @@ class ReplayBuffer:
             to the length of the buffer (i.e. return all available indices in a
             random order).
         """
+        if len(self) == 0:
+            return np.array([], int)
         if batch_size is None:
             batch_size = len(self)
         if self.stack_num == 1 or not self._sample_avail:  # most often case
@@ -530,7 +532,7 @@ class ReplayBuffer:
         for _ in range(self.stack_num - 2):
             prev_indices = self.prev(prev_indices)
         all_indices = all_indices[prev_indices != self.prev(prev_indices)]
-        if batch_size > 0:
+        if batch_size > 0 and len(all_indices) > 0:
             return np.random.choice(all_indices, batch_size)
         return all_indices
 
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index 0a21171..893499a 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -205,6 +205,8 @@ class ReplayBufferManager(ReplayBuffer):
         if batch_size is not None and batch_size < 0:
             # TODO: raise error instead?
             return np.array([], int)
+        if len(self) == 0:
+            return np.array([], int)
         if self._sample_avail and self.stack_num > 1:
             all_indices = np.concatenate(
                 [
@@ -212,7 +214,7 @@ class ReplayBufferManager(ReplayBuffer):
                     for offset, buf in zip(self._offset, self.buffers, strict=True)
                 ],
             )
-            if batch_size == 0:
+            if batch_size == 0 or len(all_indices) == 0:
                 return all_indices
             if batch_size is None:
                 batch_size = len(all_indices)
-- 
2.43.0


From a0dee764358dc900e54cd50d0d8077b1cc8a8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 25/74] fix: SegmentTree handles empty index arrays instead of
 looping forever

---
 tianshou/data/utils/segtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/utils/segtree.py b/tianshou/data/utils/segtree.py
index 3e4582c..a00a803 100644
--- a/tianshou/data/utils/segtree.py
+++ b/tianshou/data/utils/segtree.py
@@ -95,6 +95,8 @@ class SegmentTree:
 @njit
 def _setitem(tree: np.ndarray, index: np.ndarray, value: np.ndarray) -> None:
     """Numba version, 4x faster: 0.1 -> 0.024."""
+    if len(index) == 0:
+        return
     tree[index] = value
     while index[0] > 1:
         index //= 2
@@ -124,7 +126,7 @@ def _get_prefix_sum_idx(value: np.ndarray, bound: int, sums: np.ndarray) -> np.n
     for-loop: 0.2914 -> 0.019 (but not so stable)
     """
     index = np.ones(value.shape, dtype=np.int64)
-    while index[0] < bound:
+    while len(index) > 0 and index[0] < bound:
         index *= 2
         lsons = sums[index]
         direct = lsons < value
-- 
2.43.0


From 7e2fa2388bb4303621c0b2793fb9944a23440d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 26/74] fix: HER relabels the rewards with the new goals when
 obs_next is not stored

---
 tianshou/data/buffer/her.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/data/buffer/her.py b/tianshou/data/buffer/her.py
index 087f8d0..8502014 100644
--- a/tianshou/data/buffer/her.py
+++ b/tianshou/data/buffer/her.py
@@ -173,6 +173,8 @@ class HERReplayBuffer(ReplayBuffer):
         else:
             tmp_ep_obs_next = self[self.next(unique_ep_indices)].obs
             assert isinstance(tmp_ep_obs_next, BatchProtocol)
+            # these observations still have the original goals
+            tmp_ep_obs_next.desired_goal[:, her_ep_indices] = ep_obs.desired_goal[:, her_ep_indices]
             ep_rew[:, her_ep_indices] = self._compute_reward(tmp_ep_obs_next)[:, her_ep_indices]
 
         # Sanity check
-- 
2.43.0


From 30d7062801fdfacf9ec69c5e200c208b55306bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 27/74] fix: moving data from a hindsight replay buffer does
 not make its relabelling permanent

---
 tianshou/data/buffer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 814c2e8..c1437ba 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -339,6 +339,9 @@ class ReplayBuffer:
         from_indices = buffer.sample_indices(0)  # get all available indices
         for source, stack_num in zip(sources, stack_nums, strict=True):
             source.stack_num = stack_num
+        if hasattr(buffer, "_restore_cache"):
+            # a hindsight buffer has relabelled the listed transitions temporarily
+            buffer._restore_cache()
         if len(from_indices) == 0:
             return np.array([], int)
         updated_indices = []
-- 
2.43.0


From 4e3147f47a1f9a7747617d789011155772fded01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:29 +0000
Subject: [PATCH 28/74] fix: Batch.dropnull keeps the rows of entries with more
 than one dimension

---
 tianshou/data/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 081d9a1..9dfe077 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -1333,7 +1333,7 @@ class Batch(BatchProtocol):
             if b.hasnull():
                 continue
             # needed for cat to work
-            b = b.apply_values_transform(np.atleast_1d)
+            b = b.apply_values_transform(lambda x: np.asanyarray(x)[None])
             sub_batches.append(b)
         return Batch.cat(sub_batches)
 
-- 
2.43.0


From 32f7781db9da5441ad458822ce9e5efd99e6faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 29/74] fix: Batch.cat_ and stack_ extend entries that are
 reserved in the other batches

---
 tianshou/data/batch.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 9dfe077..4b0f012 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -971,17 +971,18 @@ class Batch(BatchProtocol):
             # reserved keys
             self.__dict__[key] = Batch()
         for key in keys_partial:
+            # a new value, since self may be one of the batches and have the key already
+            padded_value = None
             for i, batch in enumerate(batches):
                 if key not in batch.__dict__:
                     continue
                 value = batch.get(key)
                 if isinstance(value, Batch) and len(value.get_keys()) == 0:
                     continue
-                try:
-                    self.__dict__[key][sum_lens[i] : sum_lens[i + 1]] = value
-                except KeyError:
-                    self.__dict__[key] = create_value(value, sum_lens[-1], stack=False)
-                    self.__dict__[key][sum_lens[i] : sum_lens[i + 1]] = value
+                if padded_value is None:
+                    padded_value = create_value(value, sum_lens[-1], stack=False)
+                padded_value[sum_lens[i] : sum_lens[i + 1]] = value
+            self.__dict__[key] = padded_value
 
     def cat_(self, batches: BatchProtocol | Sequence[dict | BatchProtocol]) -> None:
         if isinstance(batches, BatchProtocol | dict):
@@ -1109,6 +1110,8 @@ class Batch(BatchProtocol):
             # reserved keys
             self.__dict__[key] = Batch()
         for key in keys_partial:
+            # a new value, since self may be one of the batches and have the key already
+            padded_value = None
             for i, batch in enumerate(batches):
                 if key not in batch.__dict__:
                     continue
@@ -1119,11 +1122,10 @@ class Batch(BatchProtocol):
                     and len(value.get_keys()) == 0  # type: ignore
                 ):
                     continue  # type: ignore
-                try:
-                    self.__dict__[key][i] = value
-                except KeyError:
-                    self.__dict__[key] = create_value(value, len(batches))
-                    self.__dict__[key][i] = value
+                if padded_value is None:
+                    padded_value = create_value(value, len(batches))
+                padded_value[i] = value
+            self.__dict__[key] = padded_value
 
     @staticmethod
     def stack(batches: Sequence[dict | TBatch], axis: int = 0) -> TBatch:
-- 
2.43.0


From f4aa33902e0440d2e9ce45708a7f9805af17bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:47 +0000
Subject: [PATCH 30/74] fix: environments that are stepping cannot be seeded

---
 tianshou/env/venvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/env/venvs.py b/tianshou/env/venvs.py
index adc4877..0b85551 100644
--- a/tianshou/env/venvs.py
+++ b/tianshou/env/venvs.py
@@ -333,6 +333,8 @@ class BaseVectorEnv:
             which a reproducer pass to "seed".
         """
         self._assert_is_not_closed()
+        if self.is_async:
+            self._assert_id(self._wrap_id())
         seed_list: list[None] | list[int]
         if seed is None:
             seed_list = [seed] * self.env_num
-- 
2.43.0


From 91c04a03f456733328df60207f92c9cd8ddbc0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 31/74] fix: scalar observations are passed through shared
 memory

---
 tianshou/env/worker/subproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/worker/subproc.py b/tianshou/env/worker/subproc.py
index e72afdf..dfe1cf1 100644
--- a/tianshou/env/worker/subproc.py
+++ b/tianshou/env/worker/subproc.py
@@ -84,8 +84,9 @@ def _worker(
         obs: dict | tuple | np.ndarray,
         buffer: dict | tuple | ShArray,
     ) -> None:
-        if isinstance(obs, np.ndarray) and isinstance(buffer, ShArray):
-            buffer.save(obs)
+        if isinstance(buffer, ShArray):
+            # observations of discrete spaces are scalars
+            buffer.save(np.asarray(obs))
         elif isinstance(obs, tuple) and isinstance(buffer, tuple):
             for o, b in zip(obs, buffer, strict=True):
                 _encode_obs(o, b)
-- 
2.43.0


From c7a62b40b32c4470956b43f88b0996ab34a0246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:03 +0000
Subject: [PATCH 32/74] fix: the initial std of RunningMeanStd is not taken for
 the variance

---
 tianshou/utils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index 560540c..69dce83 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -85,7 +85,7 @@ class RunningMeanStd:
         clip_max: float | None = 10.0,
         epsilon: float = np.finfo(np.float32).eps.item(),
     ) -> None:
-        self.mean, self.var = mean, std
+        self.mean, self.var = mean, std**2
         self.clip_max = clip_max
         self.count = 0
         self.eps = epsilon
-- 
2.43.0


From ccda7bc2e29425aebb6b41df0c1ff035b10c3bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 33/74] fix: Collector heeds raise_on_nan_in_buffer=False

---
 tianshou/data/collector.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index f452a1b..898d526 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1031,19 +1031,6 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
             ):
                 break
 
-        # Check if we screwed up somewhere
-        if self.buffer.hasnull():
-            nan_batch = self.buffer.isnull().apply_values_transform(np.sum)
-
-            raise MalformedBufferError(
-                "NaN detected in the buffer. You can drop them with `buffer.dropnull()`. "
-                "This error is most often caused by an incorrect use of `EpisodeRolloutHooks`"
-                "together with the `n_steps` (instead of `n_episodes`) option, or by "
-                "an incorrect implementation of `StepHook`."
-                "Here an overview of the number of NaNs per field: \n"
-                f"{nan_batch}",
-            )
-
         # Step 14
         # update instance-lifetime counters, different from collect_stats
         self.collect_step += step_count
-- 
2.43.0


From 079fbd52c4348ee5b0878970e75dc75b71484ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 34/74] fix: collect rejects n_step and n_episode given
 together

---
 tianshou/data/collector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 898d526..bb301ee 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -505,6 +505,10 @@ class BaseCollector(Generic[TCollectStats], ABC):
             raise ValueError(
                 "Exactly one of n_step and n_episode should be set but got None for both.",
             )
+        if n_step and n_episode:
+            raise ValueError(
+                f"Only one of n_step and n_episode should be set, but got {n_step=}, {n_episode=}.",
+            )
         if n_step and n_step % self.env_num != 0:
             warnings.warn(
                 f"{n_step=} is not a multiple of ({self.env_num=}), "
-- 
2.43.0


From 84000e555195b75925d6f44cde60703597994383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 35/74] fix: AsyncCollector assigns policy entries and hidden
 states to their envs after random collection

---
 tianshou/data/collector.py | 49 +++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index bb301ee..11c4bd3 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1152,6 +1152,25 @@ class AsyncCollector(Collector[CollectStats]):
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
+    def _set_current_in_all_envs(
+        self,
+        current_E: np.ndarray | torch.Tensor | Batch | None,
+        value_R: np.ndarray | torch.Tensor | Batch | None,
+        ready_env_ids_R: np.ndarray,
+    ) -> np.ndarray | torch.Tensor | Batch | None:
+        """Set the values of the ready envs, None (e.g., for random actions) means that there are none.
+
+        The first values may be those of only some envs, in any order.
+        """
+        if value_R is None:
+            self._reset_hidden_state_based_on_type(ready_env_ids_R, current_E)
+            return current_E
+        if current_E is None:
+            current_E = value_R[np.zeros(self.env_num, dtype=int)]
+            self._reset_hidden_state_based_on_type(np.arange(self.env_num), current_E)
+        current_E[ready_env_ids_R] = value_R  # type: ignore[index]
+        return current_E
+
     @override
     def _collect(
         self,
@@ -1221,24 +1240,16 @@ class AsyncCollector(Collector[CollectStats]):
                     dtype=act_R.dtype,
                 )
             self._current_action_in_all_envs_EA[ready_env_ids_R] = collect_batch_R.act
-            if self._current_policy_in_all_envs_E:
-                self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
-            else:
-                self._current_policy_in_all_envs_E = collect_batch_R.policy_entry  # first iteration
-            if collect_batch_R.hidden_state is not None:
-                if self._current_hidden_state_in_all_envs_EH is not None:
-                    # Need to cast since if it's a Tensor, the assignment might in fact fail if hidden_state_RH is not
-                    # a tensor as well. This is hard to express with proper typing, even using @overload, so we cheat
-                    # and hope that if one of the two is a tensor, the other one is as well.
-                    self._current_hidden_state_in_all_envs_EH = cast(
-                        np.ndarray | Batch,
-                        self._current_hidden_state_in_all_envs_EH,
-                    )
-                    self._current_hidden_state_in_all_envs_EH[
-                        ready_env_ids_R
-                    ] = collect_batch_R.hidden_state
-                else:
-                    self._current_hidden_state_in_all_envs_EH = collect_batch_R.hidden_state
+            self._current_policy_in_all_envs_E = self._set_current_in_all_envs(
+                self._current_policy_in_all_envs_E,
+                collect_batch_R.policy_entry if collect_batch_R.policy_entry.get_keys() else None,
+                ready_env_ids_R,
+            )
+            self._current_hidden_state_in_all_envs_EH = self._set_current_in_all_envs(
+                self._current_hidden_state_in_all_envs_EH,
+                collect_batch_R.hidden_state,
+                ready_env_ids_R,
+            )
 
             # step in env
             obs_next_RO, rew_R, terminated_R, truncated_R, info_R = self.env.step(
@@ -1262,7 +1273,7 @@ class AsyncCollector(Collector[CollectStats]):
                     act=self._current_action_in_all_envs_EA[ready_env_ids_R],
                     # the policy may not produce any entries
                     policy=self._current_policy_in_all_envs_E[ready_env_ids_R]
-                    if self._current_policy_in_all_envs_E.get_keys()
+                    if self._current_policy_in_all_envs_E is not None
                     else Batch(),
                     obs_next=obs_next_RO,
                     rew=rew_R,
-- 
2.43.0


From 9bf9a8969e7f3c0e1bd919fce69f6fb7aa0f691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 36/74] fix: vector buffers store additional entries, e.g.
 those added by step hooks

---
 tianshou/data/buffer/manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index 893499a..c26ad3c 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -76,7 +76,8 @@ class ReplayBufferManager(ReplayBuffer):
 
     def _set_batch_for_children(self) -> None:
         for offset, buf in zip(self._offset, self.buffers, strict=True):
-            buf.set_batch(self._meta[offset : offset + buf.maxsize])
+            # no set_batch here: the memory may have got further entries than the reserved ones
+            buf._meta = self._meta[offset : offset + buf.maxsize]
 
     def set_batch(self, batch: RolloutBatchProtocol) -> None:
         super().set_batch(batch)
@@ -87,8 +88,7 @@ class ReplayBufferManager(ReplayBuffer):
         # copying and unpickling turn the sub-buffers' views on the contiguous memory into
         # independent batches, so they have to be linked again
         if len(self._meta.get_keys()) > 0:
-            for offset, buf in zip(self._offset, self.buffers, strict=True):
-                buf._meta = self._meta[offset : offset + buf.maxsize]
+            self._set_batch_for_children()
 
     def unfinished_index(self) -> np.ndarray:
         return np.concatenate(
@@ -152,7 +152,7 @@ class ReplayBufferManager(ReplayBuffer):
         """
         # preprocess batch
         new_batch = Batch()
-        for key in set(self._reserved_keys).intersection(batch.get_keys()):
+        for key in batch.get_keys():
             new_batch.__dict__[key] = batch[key]
         batch = new_batch
         batch.__dict__["done"] = np.logical_or(batch.terminated, batch.truncated)
-- 
2.43.0


From 6eedfd7c7a58c55f380dcea8b6ff52a589e395db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 37/74] fix: entries added by set_array_at_key also reach the
 sub-buffers

---
 tianshou/data/buffer/manager.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index c26ad3c..24941d0 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -6,7 +6,7 @@ from numba import njit
 from overrides import override
 
 from tianshou.data import Batch, HERReplayBuffer, PrioritizedReplayBuffer, ReplayBuffer
-from tianshou.data.batch import alloc_by_keys_diff, create_value
+from tianshou.data.batch import IndexType, alloc_by_keys_diff, create_value
 from tianshou.data.types import RolloutBatchProtocol
 
 
@@ -83,6 +83,17 @@ class ReplayBufferManager(ReplayBuffer):
         super().set_batch(batch)
         self._set_batch_for_children()
 
+    def set_array_at_key(
+        self,
+        seq: np.ndarray,
+        key: str,
+        index: IndexType | None = None,
+        default_value: float | None = None,
+    ) -> None:
+        super().set_array_at_key(seq, key, index, default_value)
+        # the key may be new
+        self._set_batch_for_children()
+
     def __setstate__(self, state: dict[str, Any]) -> None:
         super().__setstate__(state)
         # copying and unpickling turn the sub-buffers' views on the contiguous memory into
-- 
2.43.0


From 3554d966eee6fd6de1543c40f7e127d5b4208ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:50 +0000
Subject: [PATCH 38/74] fix: CQL assigns the calibration returns to their
 transitions in wrapped, partly filled and vector buffers

---
 tianshou/policy/imitation/cql.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 66438c7..9e23494 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Any, Literal, Self, TypeVar, cast
+from typing import Any, Literal, Self, TypeVar
 
 import gymnasium as gym
 import numpy as np
@@ -217,7 +217,6 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
         :return:
         """
         if self.calibrated:
-            # otherwise _meta hack cannot work
             assert isinstance(buffer, ReplayBuffer)
             batch, indices = buffer.sample(0)
             returns, _ = self.compute_episodic_return(
@@ -227,11 +226,9 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
                 gamma=self.gamma,
                 gae_lambda=1.0,
             )
-            # TODO: don't access _meta directly
-            buffer._meta = cast(
-                RolloutBatchProtocol,
-                Batch(**buffer._meta.__dict__, calibration_returns=returns),
-            )
+            # the returns are ordered like indices, which need not be the order of the slots,
+            # and there may be empty slots
+            buffer.set_array_at_key(returns, "calibration_returns", index=indices)
         return buffer
 
     def process_fn(
-- 
2.43.0


From 992375e888dd909677dd41b0c15c2ee651094da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 39/74] fix: tests during training apply the reward metric

---
 tianshou/trainer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 694562f..bbc5c64 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -566,6 +566,7 @@ class BaseTrainer(ABC):
                     self.episode_per_test,
                     self.logger,
                     self.env_step,
+                    self.reward_metric,
                 )
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
-- 
2.43.0


From e48e4dd41ec73570bdfb12aff473f3aa9caec8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 40/74] fix: an on-policy update with the full batch counts as
 one gradient step

---
 tianshou/trainer/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index bbc5c64..5db222a 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -764,9 +764,7 @@ class OnpolicyTrainer(BaseTrainer):
         # TODO: remove the gradient step counting in trainers? Doesn't seem like
         #   it's important and it adds complexity
         self._gradient_step += 1
-        if self.batch_size is None:
-            self._gradient_step += 1
-        elif self.batch_size > 0:
+        if self.batch_size is not None and self.batch_size > 0:
             self._gradient_step += int((len(self.train_collector.buffer) - 0.1) // self.batch_size)
 
         # Note 1: this is the main difference to the off-policy trainer!
-- 
2.43.0


From 49bc6c5bb581a58eb6920f7c7ed4699733dea123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 41/74] fix: smoothed losses and update time of a reset trainer
 start anew

---
 tianshou/trainer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 5db222a..bb0a065 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -266,6 +266,8 @@ class BaseTrainer(ABC):
         self.env_step = 0
         self.env_episode = 0
         self._gradient_step = 0
+        self.policy_update_time = 0.0
+        self.stat.clear()
         if self.resume_from_log:
             (
                 self.start_epoch,
-- 
2.43.0


From 170780d6d951639879890debb7b848e23f568b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 42/74] fix: the updating flag of a policy is cleared when an
 update fails

---
 tianshou/policy/base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 066a23a..78daf64 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -542,13 +542,15 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
         start_time = time.time()
         batch, indices = buffer.sample(sample_size)
         self.updating = True
-        batch = self.process_fn(batch, buffer, indices)
-        with torch_train_mode(self):
-            training_stat = self.learn(batch, **kwargs)
-        self.post_process_fn(batch, buffer, indices)
-        if self.lr_scheduler is not None:
-            self.lr_scheduler.step()
-        self.updating = False
+        try:
+            batch = self.process_fn(batch, buffer, indices)
+            with torch_train_mode(self):
+                training_stat = self.learn(batch, **kwargs)
+            self.post_process_fn(batch, buffer, indices)
+            if self.lr_scheduler is not None:
+                self.lr_scheduler.step()
+        finally:
+            self.updating = False
         training_stat.train_time = time.time() - start_time
         return training_stat
 
-- 
2.43.0


From 87790ccf41b2b6e2ff498e0a71586385e203beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 43/74] fix: restored loggers count test data in environment
 steps and info data in epochs

---
 tianshou/utils/logger/tensorboard.py | 4 ++--
 tianshou/utils/logger/wandb.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tianshou/utils/logger/tensorboard.py b/tianshou/utils/logger/tensorboard.py
index ef504cb..1c40c89 100644
--- a/tianshou/utils/logger/tensorboard.py
+++ b/tianshou/utils/logger/tensorboard.py
@@ -126,14 +126,14 @@ class TensorboardLogger(BaseLogger):
 
         try:  # epoch / gradient_step
             epoch = ea.scalars.Items("save/epoch")[-1].step
-            self.last_save_step = self.last_log_test_step = epoch
+            self.last_save_step = self.last_log_info_step = epoch
             gradient_step = ea.scalars.Items("save/gradient_step")[-1].step
             self.last_log_update_step = gradient_step
         except KeyError:
             epoch, gradient_step = 0, 0
         try:  # offline trainer doesn't have env_step
             env_step = ea.scalars.Items("save/env_step")[-1].step
-            self.last_log_train_step = env_step
+            self.last_log_train_step = self.last_log_test_step = env_step
         except KeyError:
             env_step = 0
 
diff --git a/tianshou/utils/logger/wandb.py b/tianshou/utils/logger/wandb.py
index 9172bf5..929bb39 100644
--- a/tianshou/utils/logger/wandb.py
+++ b/tianshou/utils/logger/wandb.py
@@ -172,14 +172,14 @@ class WandbLogger(BaseLogger):
 
         try:  # epoch / gradient_step
             epoch = checkpoint_artifact.metadata["save/epoch"]
-            self.last_save_step = self.last_log_test_step = epoch
+            self.last_save_step = self.last_log_info_step = epoch
             gradient_step = checkpoint_artifact.metadata["save/gradient_step"]
             self.last_log_update_step = gradient_step
         except KeyError:
             epoch, gradient_step = 0, 0
         try:  # offline trainer doesn't have env_step
             env_step = checkpoint_artifact.metadata["save/env_step"]
-            self.last_log_train_step = env_step
+            self.last_log_train_step = self.last_log_test_step = env_step
         except KeyError:
             env_step = 0
         return epoch, env_step, gradient_step
-- 
2.43.0


From 434debef7debbcae1e47fd32073b3f6d955a18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 44/74] fix: WandbLogger passes its settings to the right
 parameters of the tensorboard logger

---
 tianshou/utils/logger/wandb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/utils/logger/wandb.py b/tianshou/utils/logger/wandb.py
index 929bb39..6a4d1c6 100644
--- a/tianshou/utils/logger/wandb.py
+++ b/tianshou/utils/logger/wandb.py
@@ -110,6 +110,7 @@ class WandbLogger(BaseLogger):
             self.train_interval,
             self.test_interval,
             self.update_interval,
+            self.info_interval,
             self.save_interval,
             self.write_flush,
         )
-- 
2.43.0


From a2e659a9e572fd0dec93d3a20744b9b6588b1e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 45/74] fix: REDQ with automatic alpha used attributes that do
 not exist

---
 tianshou/policy/modelfree/redq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/policy/modelfree/redq.py b/tianshou/policy/modelfree/redq.py
index 25f2997..09e48ea 100644
--- a/tianshou/policy/modelfree/redq.py
+++ b/tianshou/policy/modelfree/redq.py
@@ -217,8 +217,8 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             self.actor_optim.step()
 
             if self.is_auto_alpha:
-                log_prob = obs_result.log_prob.detach() + self._target_entropy
-                alpha_loss = -(self._log_alpha * log_prob).mean()
+                log_prob = obs_result.log_prob.detach() + self.target_entropy
+                alpha_loss = -(self.log_alpha * log_prob).mean()
                 self.alpha_optim.zero_grad()
                 alpha_loss.backward()
                 self.alpha_optim.step()
-- 
2.43.0


From d8fb21b4f967f7def50f60c9f45db7065188cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 46/74] fix: BDQ ignored the configured discount factor

---
 tianshou/policy/modelfree/bdq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index d7196a9..5106c1e 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -144,7 +144,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         indices: np.ndarray,
     ) -> BatchWithReturnsProtocol:
         """Compute the 1-step return for BDQ targets."""
-        return self._compute_return(batch, buffer, indices)
+        return self._compute_return(batch, buffer, indices, gamma=self.gamma)
 
     def forward(
         self,
-- 
2.43.0


From 0494e276a9fe2c1608a791d516ada597075e4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 47/74] fix: BDQ averaged target values over a batch of size
 one and over a single branch wrongly

---
 tianshou/policy/modelfree/bdq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index 5106c1e..da486ed 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -111,7 +111,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
             act = to_torch(act, dtype=torch.long, device=target_q.device)
         else:
             act = target_q.max(-1).indices.unsqueeze(-1)
-        return torch.gather(target_q, -1, act).squeeze()
+        return torch.gather(target_q, -1, act).squeeze(-1)  # (bsz, num_branches)
 
     def _compute_return(
         self,
@@ -127,7 +127,7 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         end_flag = buffer.done.copy()
         end_flag[buffer.unfinished_index()] = True
         end_flag = end_flag[indice]
-        mean_target_q = np.mean(target_q, -1) if len(target_q.shape) > 1 else target_q
+        mean_target_q = np.mean(target_q, -1)
         _target_q = rew + gamma * mean_target_q * (1 - end_flag)
         target_q = np.repeat(_target_q[..., None], self.num_branches, axis=-1)
         target_q = np.repeat(target_q[..., None], self._action_per_branch, axis=-1)
-- 
2.43.0


From 48e323ea8ff565c22745f33eb1ba279161b7f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 48/74] fix: BDQ did not bootstrap at truncated and at ongoing
 episodes

---
 tianshou/policy/modelfree/bdq.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tianshou/policy/modelfree/bdq.py b/tianshou/policy/modelfree/bdq.py
index da486ed..f76cdc8 100644
--- a/tianshou/policy/modelfree/bdq.py
+++ b/tianshou/policy/modelfree/bdq.py
@@ -124,11 +124,8 @@ class BranchingDQNPolicy(DQNPolicy[TBDQNTrainingStats]):
         with torch.no_grad():
             target_q_torch = self._target_q(buffer, indice)  # (bsz, ?)
         target_q = to_numpy(target_q_torch)
-        end_flag = buffer.done.copy()
-        end_flag[buffer.unfinished_index()] = True
-        end_flag = end_flag[indice]
         mean_target_q = np.mean(target_q, -1)
-        _target_q = rew + gamma * mean_target_q * (1 - end_flag)
+        _target_q = rew + gamma * mean_target_q * self.value_mask(buffer, indice)
         target_q = np.repeat(_target_q[..., None], self.num_branches, axis=-1)
         target_q = np.repeat(target_q[..., None], self._action_per_branch, axis=-1)
 
-- 
2.43.0


From 9fad3c1069d9c4b83094ef1ff90e9957888ee962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 49/74] fix: DQN without double Q-learning took the target's
 maximum over forbidden actions

---
 tianshou/policy/modelfree/dqn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/dqn.py b/tianshou/policy/modelfree/dqn.py
index e0ada07..f335289 100644
--- a/tianshou/policy/modelfree/dqn.py
+++ b/tianshou/policy/modelfree/dqn.py
@@ -132,7 +132,8 @@ class DQNPolicy(BasePolicy[TDQNTrainingStats], Generic[TDQNTrainingStats]):
         if self.is_double:
             return target_q[np.arange(len(result.act)), result.act]
         # Nature DQN, over estimate
-        return target_q.max(dim=1)[0]
+        mask = getattr(obs_next_batch.obs, "mask", None)
+        return self.compute_q_value(target_q, mask).max(dim=1)[0]
 
     def process_fn(
         self,
-- 
2.43.0


From 6f199905911a8657f480eaddb30289206e454cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 50/74] fix: DiscreteCRR put its target networks into training
 mode

---
 tianshou/policy/imitation/discrete_crr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/discrete_crr.py b/tianshou/policy/imitation/discrete_crr.py
index 9c54129..a83e522 100644
--- a/tianshou/policy/imitation/discrete_crr.py
+++ b/tianshou/policy/imitation/discrete_crr.py
@@ -1,6 +1,6 @@
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import Any, Literal, TypeVar
+from typing import Any, Literal, Self, TypeVar
 
 import gymnasium as gym
 import torch
@@ -100,6 +100,13 @@ class DiscreteCRRPolicy(PGPolicy[TDiscreteCRRTrainingStats]):
         self._beta = beta
         self._min_q_weight = min_q_weight
 
+    def train(self, mode: bool = True) -> Self:
+        """Set the module in training mode, except for the target networks."""
+        self.training = mode
+        self.actor.train(mode)
+        self.critic.train(mode)
+        return self
+
     def sync_weight(self) -> None:
         self.actor_old.load_state_dict(self.actor.state_dict())
         self.critic_old.load_state_dict(self.critic.state_dict())
-- 
2.43.0


From 88519fa28257f2454beb9f6bf0daa6f01e37ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 51/74] fix: BCQ's target networks stayed in training mode

---
 tianshou/policy/imitation/bcq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/policy/imitation/bcq.py b/tianshou/policy/imitation/bcq.py
index 991c4aa..6039938 100644
--- a/tianshou/policy/imitation/bcq.py
+++ b/tianshou/policy/imitation/bcq.py
@@ -92,16 +92,19 @@ class BCQPolicy(BasePolicy[TBCQTrainingStats], Generic[TBCQTrainingStats]):
         )
         self.actor_perturbation = actor_perturbation
         self.actor_perturbation_target = copy.deepcopy(self.actor_perturbation)
+        self.actor_perturbation_target.eval()
         self.actor_perturbation_optim = actor_perturbation_optim
 
         self.critic = critic
         self.critic_target = copy.deepcopy(self.critic)
+        self.critic_target.eval()
         self.critic_optim = critic_optim
 
         critic2 = critic2 or copy.deepcopy(critic)
         critic2_optim = critic2_optim or clone_optimizer(critic_optim, critic2.parameters())
         self.critic2 = critic2
         self.critic2_target = copy.deepcopy(self.critic2)
+        self.critic2_target.eval()
         self.critic2_optim = critic2_optim
 
         self.vae = vae
-- 
2.43.0


From 7ff88e47d802a6dd26b94e0e49f532c016158aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 52/74] fix: MultipleLRSchedulers.load_state_dict overwrote the
 functions of LambdaLR schedulers

---
 tianshou/utils/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/utils/lr_scheduler.py b/tianshou/utils/lr_scheduler.py
index 59890c7..2fc3513 100644
--- a/tianshou/utils/lr_scheduler.py
+++ b/tianshou/utils/lr_scheduler.py
@@ -37,4 +37,4 @@ class MultipleLRSchedulers:
             state_dict, in the same order as the schedulers.
         """
         for s, sd in zip(self.schedulers, state_dict, strict=True):
-            s.__dict__.update(sd)
+            s.load_state_dict(sd)
-- 
2.43.0


From dd4632aa86cd5d532e19ca16ea5eb66b422689bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 53/74] fix: CQL drew its random actions from [-min_action,
 max_action]

---
 tianshou/policy/imitation/cql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/imitation/cql.py b/tianshou/policy/imitation/cql.py
index 9e23494..c6f64ca 100644
--- a/tianshou/policy/imitation/cql.py
+++ b/tianshou/policy/imitation/cql.py
@@ -292,7 +292,7 @@ class CQLPolicy(SACPolicy[TCQLTrainingStats]):
         # CQL
         random_actions = (
             torch.FloatTensor(batch_size * self.num_repeat_actions, act.shape[-1])
-            .uniform_(-self.min_action, self.max_action)
+            .uniform_(self.min_action, self.max_action)
             .to(self.device)
         )
 
-- 
2.43.0


From 896fbdeab7ea9f0957d0ae18293404d6118925cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:51 +0000
Subject: [PATCH 54/74] fix: sample_indices(None) drew with replacement or in
 order instead of returning everything shuffled

---
 tianshou/data/buffer/base.py    | 2 +-
 tianshou/data/buffer/manager.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index c1437ba..f53b875 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -512,7 +512,7 @@ class ReplayBuffer:
         if len(self) == 0:
             return np.array([], int)
         if batch_size is None:
-            batch_size = len(self)
+            return np.random.permutation(ReplayBuffer.sample_indices(self, 0))
         if self.stack_num == 1 or not self._sample_avail:  # most often case
             if batch_size > 0:
                 return np.random.choice(self._size, batch_size)
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index 24941d0..10eb44c 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -218,6 +218,8 @@ class ReplayBufferManager(ReplayBuffer):
             return np.array([], int)
         if len(self) == 0:
             return np.array([], int)
+        if batch_size is None:
+            return np.random.permutation(ReplayBufferManager.sample_indices(self, 0))
         if self._sample_avail and self.stack_num > 1:
             all_indices = np.concatenate(
                 [
@@ -227,10 +229,8 @@ class ReplayBufferManager(ReplayBuffer):
             )
             if batch_size == 0 or len(all_indices) == 0:
                 return all_indices
-            if batch_size is None:
-                batch_size = len(all_indices)
             return np.random.choice(all_indices, batch_size)
-        if batch_size == 0 or batch_size is None:  # get all available indices
+        if batch_size == 0:  # get all available indices
             sample_num = np.zeros(self.buffer_num, int)
         else:
             buffer_idx = np.random.choice(
-- 
2.43.0


From 71544dda98f1bb85b45ab2f5591108c8cabbc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 55/74] fix: C51 and Rainbow took the target distribution at
 the next instead of the n-step observation

---
 tianshou/policy/modelfree/c51.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/c51.py b/tianshou/policy/modelfree/c51.py
index 5bfdba0..8b6131d 100644
--- a/tianshou/policy/modelfree/c51.py
+++ b/tianshou/policy/modelfree/c51.py
@@ -6,7 +6,7 @@ import numpy as np
 import torch
 
 from tianshou.data import Batch, ReplayBuffer
-from tianshou.data.types import RolloutBatchProtocol
+from tianshou.data.types import BatchWithReturnsProtocol, RolloutBatchProtocol
 from tianshou.policy import DQNPolicy
 from tianshou.policy.base import TLearningRateScheduler
 from tianshou.policy.modelfree.dqn import DQNTrainingStats
@@ -98,6 +98,20 @@ class C51Policy(DQNPolicy[TC51TrainingStats], Generic[TC51TrainingStats]):
     def compute_q_value(self, logits: torch.Tensor, mask: np.ndarray | None) -> torch.Tensor:
         return super().compute_q_value((logits * self.support).sum(2), mask)
 
+    def process_fn(
+        self,
+        batch: RolloutBatchProtocol,
+        buffer: ReplayBuffer,
+        indices: np.ndarray,
+    ) -> BatchWithReturnsProtocol:
+        """Compute the n-step return and make `obs_next` the observation after n steps."""
+        batch = super().process_fn(batch, buffer, indices)
+        if self.n_step > 1:
+            for _ in range(self.n_step - 1):
+                indices = buffer.next(indices)
+            batch.obs_next = buffer[indices].obs_next
+        return batch
+
     def _target_dist(self, batch: RolloutBatchProtocol) -> torch.Tensor:
         obs_next_batch = Batch(obs=batch.obs_next, info=[None] * len(batch))
         if self._target:
-- 
2.43.0


From 6f840d10d28bef58972f0cf1d233de1e4ef962ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:23 +0000
Subject: [PATCH 56/74] fix: a vanishing policy gradient does not turn the
 parameters of NPG into NaN

---
 tianshou/policy/modelfree/npg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tianshou/policy/modelfree/npg.py b/tianshou/policy/modelfree/npg.py
index 9e04d3f..1634adf 100644
--- a/tianshou/policy/modelfree/npg.py
+++ b/tianshou/policy/modelfree/npg.py
@@ -203,6 +203,9 @@ class NPGPolicy(A2CPolicy[TNPGTrainingStats], Generic[TNPGTrainingStats]):  # ty
         # Change if doing warm start.
         rdotr = r.dot(r)
         for _ in range(nsteps):
+            if rdotr == 0:
+                # nothing (left) to solve, in particular for a vanishing gradient
+                break
             z = self._MVP(p, flat_kl_grad)
             alpha = rdotr / p.dot(z)
             x += alpha * p
-- 
2.43.0


From 5e519766f2819169f09356d04510993e40da6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:23 +0000
Subject: [PATCH 57/74] fix: TRPO keeps the old actor if its line search fails

---
 tianshou/policy/modelfree/trpo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/modelfree/trpo.py b/tianshou/policy/modelfree/trpo.py
index e7aa5cf..6c9b4b4 100644
--- a/tianshou/policy/modelfree/trpo.py
+++ b/tianshou/policy/modelfree/trpo.py
@@ -165,7 +165,7 @@ class TRPOPolicy(NPGPolicy[TTRPOTrainingStats]):
                         if i < self.max_backtracks - 1:
                             step_size = step_size * self.backtrack_coeff
                         else:
-                            self._set_from_flat_params(self.actor, new_flat_params)
+                            self._set_from_flat_params(self.actor, flat_params)
                             step_size = torch.tensor([0.0])
                             warnings.warn(
                                 "Line search failed! It seems hyperparamters"
-- 
2.43.0


From f6eba78d264016e15f3c59d9b88409b870da5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:50 +0000
Subject: [PATCH 58/74] fix: TRPO can be updated if the policy gradient
 vanishes

---
 tianshou/policy/modelfree/trpo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tianshou/policy/modelfree/trpo.py b/tianshou/policy/modelfree/trpo.py
index 6c9b4b4..5c54069 100644
--- a/tianshou/policy/modelfree/trpo.py
+++ b/tianshou/policy/modelfree/trpo.py
@@ -135,10 +135,13 @@ class TRPOPolicy(NPGPolicy[TTRPOTrainingStats]):
                 step_size = torch.sqrt(
                     2
                     * self.max_kl
-                    / (search_direction * self._MVP(search_direction, flat_kl_grad)).sum(
+                    / (search_direction * self._MVP(search_direction, flat_kl_grad))
+                    .sum(
                         0,
                         keepdim=True,
-                    ),
+                    )
+                    # without a direction there is no step, rather than an infinite one
+                    .clamp(min=torch.finfo(search_direction.dtype).tiny),
                 )
 
                 # stepsize: linesearch stepsize
-- 
2.43.0


From 8a19e103f415ce2cb6d0a90e2cee12095c097c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 59/74] fix: NPG takes no step either if the policy gradient
 underflows

---
 tianshou/policy/modelfree/npg.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tianshou/policy/modelfree/npg.py b/tianshou/policy/modelfree/npg.py
index 1634adf..f119f1d 100644
--- a/tianshou/policy/modelfree/npg.py
+++ b/tianshou/policy/modelfree/npg.py
@@ -203,16 +203,14 @@ class NPGPolicy(A2CPolicy[TNPGTrainingStats], Generic[TNPGTrainingStats]):  # ty
         # Change if doing warm start.
         rdotr = r.dot(r)
         for _ in range(nsteps):
-            if rdotr == 0:
-                # nothing (left) to solve, in particular for a vanishing gradient
+            # x is a solution already, in particular x=0 for a vanishing gradient
+            if rdotr < residual_tol:
                 break
             z = self._MVP(p, flat_kl_grad)
             alpha = rdotr / p.dot(z)
             x += alpha * p
             r -= alpha * z
             new_rdotr = r.dot(r)
-            if new_rdotr < residual_tol:
-                break
             p = r + new_rdotr / rdotr * p
             rdotr = new_rdotr
         return x
-- 
2.43.0


From 3a8b8f391368e11cf6fb1031efc6f2ecf39048eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:48 +0000
Subject: [PATCH 60/74] fix: scaled actions are not rounded out of the action
 space

---
 tianshou/policy/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 78daf64..cc6003f 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -397,6 +397,8 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
                 ), f"action scaling only accepts raw action range = [-1, 1], but got: {act}"
                 low, high = self.action_space.low, self.action_space.high
                 act = low + (high - low) * (act + 1.0) / 2.0
+                # rounding may lead out of the space
+                act = np.clip(act, low, high)
         return act
 
     def map_action_inverse(
-- 
2.43.0


From bdfff0a193e764ab082df6ad110bfca2de7db4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:48 +0000
Subject: [PATCH 61/74] fix: rewards returned by PettingZooEnv.step do not
 change in later steps

---
 tianshou/env/pettingzoo_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/env/pettingzoo_env.py b/tianshou/env/pettingzoo_env.py
index 1967414..d9ea662 100644
--- a/tianshou/env/pettingzoo_env.py
+++ b/tianshou/env/pettingzoo_env.py
@@ -117,7 +117,8 @@ class PettingZooEnv(AECEnv, ABC):
 
         for agent_id, reward in self.env.rewards.items():
             self.rewards[self.agent_idx[agent_id]] = reward
-        return obs, self.rewards, term, trunc, info
+        # a copy, since the rewards are overwritten in the next step
+        return obs, list(self.rewards), term, trunc, info
 
     def close(self) -> None:
         self.env.close()
-- 
2.43.0


From 33420acd8cdb9f1e9e9703028f40e8233c7afa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:48 +0000
Subject: [PATCH 62/74] fix: MultiAgentPolicyManager remembers its training
 mode

---
 tianshou/policy/multiagent/mapolicy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 05cc8db..aaceade 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -281,6 +281,7 @@ class MultiAgentPolicyManager(BasePolicy):
     # No need for a similar eval function, as eval internally uses the train function.
     def train(self, mode: bool = True) -> Self:
         """Set each internal policy in training mode."""
+        self.training = mode
         for policy in self.policies.values():
             policy.train(mode)
         return self
-- 
2.43.0


From a94bdd578c94611d9a86a712ed40c374234be958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 63/74] fix: MultiAgentPolicyManager.process_fn restores the
 rewards of the buffer if it fails

---
 tianshou/policy/multiagent/mapolicy.py | 36 ++++++++++++++------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index aaceade..877669a 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -141,23 +141,25 @@ class MultiAgentPolicyManager(BasePolicy):
             # Since we do not override buffer.__setattr__, here we use _meta to
             # change buffer.rew, otherwise buffer.rew = Batch() has no effect.
             save_rew, buffer._meta.rew = buffer.rew, Batch()  # type: ignore
-        for agent, policy in self.policies.items():
-            agent_index = np.nonzero(batch.obs.agent_id == agent)[0]
-            if len(agent_index) == 0:
-                results[agent] = cast(RolloutBatchProtocol, Batch())
-                continue
-            tmp_batch, tmp_indice = batch[agent_index], indice[agent_index]
-            if has_rew:
-                tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent]]
-                buffer._meta.rew = save_rew[:, self.agent_idx[agent]]
-            if not hasattr(tmp_batch.obs, "mask"):
-                if hasattr(tmp_batch.obs, "obs"):
-                    tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
-                    tmp_batch.obs_next = tmp_batch.obs_next.obs
-            results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
-        if has_rew:  # restore from save_rew
-            buffer._meta.rew = save_rew
+        try:
+            for agent, policy in self.policies.items():
+                agent_index = np.nonzero(batch.obs.agent_id == agent)[0]
+                if len(agent_index) == 0:
+                    results[agent] = cast(RolloutBatchProtocol, Batch())
+                    continue
+                tmp_batch, tmp_indice = batch[agent_index], indice[agent_index]
+                if has_rew:
+                    tmp_batch.rew = tmp_batch.rew[:, self.agent_idx[agent]]
+                    buffer._meta.rew = save_rew[:, self.agent_idx[agent]]
+                if not hasattr(tmp_batch.obs, "mask"):
+                    if hasattr(tmp_batch.obs, "obs"):
+                        tmp_batch.obs = tmp_batch.obs.obs
+                    if hasattr(tmp_batch.obs_next, "obs"):
+                        tmp_batch.obs_next = tmp_batch.obs_next.obs
+                results[agent] = policy.process_fn(tmp_batch, buffer, tmp_indice)
+        finally:
+            if has_rew:  # restore from save_rew
+                buffer._meta.rew = save_rew
         return cast(MAPRolloutBatchProtocol, Batch(results))
 
     _TArrOrActBatch = TypeVar("_TArrOrActBatch", bound="np.ndarray | ActBatchProtocol")
-- 
2.43.0


From 0ddd081c0a4fe328aa63ecb2b20c526751916597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 64/74] fix: policies inside MultiAgentPolicyManager and
 ICMPolicy know that they are within a training step

---
 tianshou/policy/modelbased/icm.py      | 11 +++++++++++
 tianshou/policy/multiagent/mapolicy.py | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/tianshou/policy/modelbased/icm.py b/tianshou/policy/modelbased/icm.py
index 9a603b7..22ce72a 100644
--- a/tianshou/policy/modelbased/icm.py
+++ b/tianshou/policy/modelbased/icm.py
@@ -83,6 +83,17 @@ class ICMPolicy(BasePolicy[ICMTrainingStats]):
         self.reward_scale = reward_scale
         self.forward_loss_weight = forward_loss_weight
 
+    @property
+    def is_within_training_step(self) -> bool:  # type: ignore[override]
+        """Whether this and the inner policy are within a training step."""
+        return self.__dict__.get("is_within_training_step", False)
+
+    @is_within_training_step.setter
+    def is_within_training_step(self, value: bool) -> None:
+        self.__dict__["is_within_training_step"] = value
+        if "policy" in self.__dict__.get("_modules", {}):
+            self.policy.is_within_training_step = value
+
     def train(self, mode: bool = True) -> Self:
         """Set the module in training mode."""
         self.policy.train(mode)
diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 877669a..ab6757a 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -110,6 +110,17 @@ class MultiAgentPolicyManager(BasePolicy):
         self.policies: dict[str | int, BasePolicy] = dict(zip(env.agents, policies, strict=True))
         """Maps agent_id to policy."""
 
+    @property
+    def is_within_training_step(self) -> bool:  # type: ignore[override]
+        """Whether the manager and its policies are within a training step."""
+        return self.__dict__.get("is_within_training_step", False)
+
+    @is_within_training_step.setter
+    def is_within_training_step(self, value: bool) -> None:
+        self.__dict__["is_within_training_step"] = value
+        for policy in self.__dict__.get("policies", {}).values():
+            policy.is_within_training_step = value
+
     # TODO: unused - remove it?
     def replace_policy(self, policy: BasePolicy, agent_id: int) -> None:
         """Replace the "agent_id"th policy in this manager."""
-- 
2.43.0


From 6e7514fca1a0b20fafdc9817231dfa116a7da486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:13 +0000
Subject: [PATCH 65/74] fix: MultiAgentPolicyManager.forward without masks
 accepts batches without obs_next

A collector passes batches of observation and info only, for which games
without discrete actions raised an AttributeError.
---
 tianshou/policy/multiagent/mapolicy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index ab6757a..f08ff1a 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -244,7 +244,8 @@ class MultiAgentPolicyManager(BasePolicy):
             if not hasattr(tmp_batch.obs, "mask"):
                 if hasattr(tmp_batch.obs, "obs"):
                     tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
+                # the batch of a step in an environment has no obs_next yet
+                if hasattr(tmp_batch, "obs_next") and hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
             out = policy(
                 batch=tmp_batch,
-- 
2.43.0


From f2aa51d743dc8ddce476a76dd0cd004497c3e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:49 +0000
Subject: [PATCH 66/74] fix: Experiment.run returns the trainer's result

---
 tianshou/highlevel/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index c0be23d..721bc60 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -435,7 +435,7 @@ class Experiment(ToStringMixin, DataclassPPrintMixin):
                     )
 
                 log.info("Starting training")
-                world.trainer.run()
+                trainer_result = world.trainer.run()
                 if use_persistence:
                     world.logger.finalize()
                 log.info(f"Training result:\n{pformat(trainer_result)}")
-- 
2.43.0


From 058d44964c6afe2e3ccc0364e00e9542500ca587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:49 +0000
Subject: [PATCH 67/74] fix: SamplingConfig.episode_per_collect is passed on to
 the trainer

---
 tianshou/highlevel/agent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/highlevel/agent.py b/tianshou/highlevel/agent.py
index 2ad5339..2b13950 100644
--- a/tianshou/highlevel/agent.py
+++ b/tianshou/highlevel/agent.py
@@ -196,6 +196,7 @@ class OnPolicyAgentFactory(AgentFactory, ABC):
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             save_best_fn=policy_persistence.get_save_best_fn(world),
             save_checkpoint_fn=policy_persistence.get_save_checkpoint_fn(world),
             logger=world.logger,
@@ -238,6 +239,7 @@ class OffPolicyAgentFactory(AgentFactory, ABC):
             max_epoch=sampling_config.num_epochs,
             step_per_epoch=sampling_config.step_per_epoch,
             step_per_collect=sampling_config.step_per_collect,
+            episode_per_collect=sampling_config.episode_per_collect,
             episode_per_test=sampling_config.num_test_episodes,
             batch_size=sampling_config.batch_size,
             save_best_fn=policy_persistence.get_save_best_fn(world),
-- 
2.43.0


From 1689199e072bd747bea4fa27d50af58fa26a225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:49 +0000
Subject: [PATCH 68/74] fix: ActorFactoryDefault uses the configured hidden
 layers in discrete environments

---
 tianshou/highlevel/module/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index 4a1fe5c..edec2ea 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -140,8 +140,9 @@ class ActorFactoryDefault(ActorFactory):
                     raise ValueError(self.continuous_actor_type)
         elif env_type == EnvType.DISCRETE:
             factory = ActorFactoryDiscreteNet(
-                self.DEFAULT_HIDDEN_SIZES,
+                self.hidden_sizes,
                 softmax_output=self.discrete_softmax,
+                activation=self.hidden_activation,
             )
         else:
             raise ValueError(f"{env_type} not supported")
-- 
2.43.0


From d31bf8fecfa641a3dbdbcb886b950cd60de00060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:52 +0000
Subject: [PATCH 69/74] fix: experiments whose critic reuses the actor can be
 stored and restored

---
 tianshou/highlevel/module/actor.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tianshou/highlevel/module/actor.py b/tianshou/highlevel/module/actor.py
index edec2ea..fea246c 100644
--- a/tianshou/highlevel/module/actor.py
+++ b/tianshou/highlevel/module/actor.py
@@ -41,6 +41,10 @@ class ActorFuture:
 
     actor: BaseActor | nn.Module | None = None
 
+    def __getstate__(self) -> dict:
+        # the actor instance is transient, i.e. it is not stored with the configuration
+        return {"actor": None}
+
 
 class ActorFutureProviderProtocol(Protocol):
     def get_actor_future(self) -> ActorFuture:
@@ -269,14 +273,9 @@ class ActorFactoryTransientStorageDecorator(ActorFactory):
         self.actor_factory = actor_factory
         self._actor_future = actor_future
 
-    def __getstate__(self) -> dict:
-        d = dict(self.__dict__)
-        del d["_actor_future"]
-        return d
-
     def __setstate__(self, state: dict) -> None:
-        self.__dict__ = state
-        self._actor_future = ActorFuture()
+        # objects that were stored with older versions do not contain the future
+        self.__dict__ = {"_actor_future": ActorFuture(), **state}
 
     def _tostring_excludes(self) -> list[str]:
         return [*super()._tostring_excludes(), "_actor_future"]
-- 
2.43.0


From 150d80a7d47b89192032c0a2236a61921b7e8a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:08 +0000
Subject: [PATCH 70/74] fix: the curiosity wrapper accepts the action dimension
 of gymnasium's Discrete spaces

---
 tianshou/highlevel/params/policy_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/highlevel/params/policy_wrapper.py b/tianshou/highlevel/params/policy_wrapper.py
index 43cbfed..776f353 100644
--- a/tianshou/highlevel/params/policy_wrapper.py
+++ b/tianshou/highlevel/params/policy_wrapper.py
@@ -2,6 +2,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Sequence
 from typing import Generic, TypeVar
 
+import numpy as np
 from sensai.util.string import ToStringMixin
 
 from tianshou.highlevel.env import Environments
@@ -55,13 +56,13 @@ class PolicyWrapperFactoryIntrinsicCuriosity(
     ) -> ICMPolicy:
         feature_net = self.feature_net_factory.create_intermediate_module(envs, device)
         action_dim = envs.get_action_shape()
-        if not isinstance(action_dim, int):
+        if not isinstance(action_dim, int | np.integer):
             raise ValueError(f"Environment action shape must be an integer, got {action_dim}")
         feature_dim = feature_net.output_dim
         icm_net = IntrinsicCuriosityModule(
             feature_net.module,
             feature_dim,
-            action_dim,
+            int(action_dim),
             hidden_sizes=self.hidden_sizes,
             device=device,
         )
-- 
2.43.0


From c1a268c90ab6e6f8415e6779a77eb17c71b6255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:33 +0000
Subject: [PATCH 71/74] fix: default actors of discrete SAC experiments give
 logits

---
 tianshou/highlevel/experiment.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index 721bc60..47ad738 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -694,8 +694,9 @@ class RandomActionExperimentBuilder(ExperimentBuilder):
 
 
 class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
-    def __init__(self, continuous_actor_type: ContinuousActorType):
+    def __init__(self, continuous_actor_type: ContinuousActorType, discrete_softmax: bool = True):
         self._continuous_actor_type = continuous_actor_type
+        self._discrete_softmax = discrete_softmax
         self._actor_future = ActorFuture()
         self._actor_factory: ActorFactory | None = None
 
@@ -731,6 +732,7 @@ class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
             hidden_activation=hidden_activation,
             continuous_unbounded=continuous_unbounded,
             continuous_conditioned_sigma=continuous_conditioned_sigma,
+            discrete_softmax=self._discrete_softmax,
         )
         return self
 
@@ -741,7 +743,10 @@ class _BuilderMixinActorFactory(ActorFutureProviderProtocol):
     def _get_actor_factory(self) -> ActorFactory:
         actor_factory: ActorFactory
         if self._actor_factory is None:
-            actor_factory = ActorFactoryDefault(self._continuous_actor_type)
+            actor_factory = ActorFactoryDefault(
+                self._continuous_actor_type,
+                discrete_softmax=self._discrete_softmax,
+            )
         else:
             actor_factory = self._actor_factory
         return ActorFactoryTransientStorageDecorator(actor_factory, self._actor_future)
@@ -805,7 +810,8 @@ class _BuilderMixinActorFactory_DiscreteOnly(_BuilderMixinActorFactory):
     """Specialization of the actor mixin where only environments with discrete action spaces are supported."""
 
     def __init__(self) -> None:
-        super().__init__(ContinuousActorType.UNSUPPORTED)
+        # the policy (DiscreteSACPolicy) expects logits
+        super().__init__(ContinuousActorType.UNSUPPORTED, discrete_softmax=False)
 
     def with_actor_factory_default(
         self,
-- 
2.43.0


From f0640b3bd60a85564c58f7ffc8a666ac84548ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:33 +0000
Subject: [PATCH 72/74] fix: the automatic alpha aims at an entropy which
 discrete policies can have

---
 tianshou/highlevel/params/alpha.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tianshou/highlevel/params/alpha.py b/tianshou/highlevel/params/alpha.py
index 2b662eb..458d9f4 100644
--- a/tianshou/highlevel/params/alpha.py
+++ b/tianshou/highlevel/params/alpha.py
@@ -30,7 +30,11 @@ class AutoAlphaFactoryDefault(AutoAlphaFactory):
         optim_factory: OptimizerFactory,
         device: TDevice,
     ) -> tuple[float, torch.Tensor, torch.optim.Optimizer]:
-        target_entropy = float(-np.prod(envs.get_action_shape()))
+        if envs.get_type().is_discrete():
+            # the entropy of a discrete distribution is between 0 and the logarithm of the number of actions
+            target_entropy = float(0.98 * np.log(np.prod(envs.get_action_shape())))
+        else:
+            target_entropy = float(-np.prod(envs.get_action_shape()))
         log_alpha = torch.zeros(1, requires_grad=True, device=device)
         alpha_optim = optim_factory.create_optimizer_for_params([log_alpha], self.lr)
         return target_entropy, log_alpha, alpha_optim
-- 
2.43.0


From f6678043b80a143d3c95c68f4e0a0e095dd629f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:08 +0000
Subject: [PATCH 73/74] fix: callbacks set on a builder do not change
 experiments that were built before

---
 tianshou/highlevel/experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tianshou/highlevel/experiment.py b/tianshou/highlevel/experiment.py
index 47ad738..d894e64 100644
--- a/tianshou/highlevel/experiment.py
+++ b/tianshou/highlevel/experiment.py
@@ -23,7 +23,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Sequence
 from contextlib import suppress
 from copy import deepcopy
-from dataclasses import asdict, dataclass
+from dataclasses import asdict, dataclass, replace
 from pprint import pformat
 from typing import TYPE_CHECKING, Any, Self, Union, cast
 
@@ -648,7 +648,7 @@ class ExperimentBuilder(ABC):
         :return: the experiment
         """
         agent_factory = self._create_agent_factory()
-        agent_factory.set_trainer_callbacks(self._trainer_callbacks)
+        agent_factory.set_trainer_callbacks(replace(self._trainer_callbacks))
         if self._policy_wrapper_factory:
             agent_factory.set_policy_wrapper_factory(self._policy_wrapper_factory)
         experiment: Experiment = Experiment(
-- 
2.43.0


From e190a7a5d650bb2db34734a26cbe414a604cd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:26 +0000
Subject: [PATCH 74/74] fix: critics with actions can reuse the actor's
 preprocessing network

---
 tianshou/highlevel/module/critic.py | 1 +
 tianshou/utils/net/continuous.py    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/tianshou/highlevel/module/critic.py b/tianshou/highlevel/module/critic.py
index 0352fd1..f8543db 100644
--- a/tianshou/highlevel/module/critic.py
+++ b/tianshou/highlevel/module/critic.py
@@ -207,6 +207,7 @@ class CriticFactoryReuseActor(CriticFactory):
                 actor.get_preprocess_net(),
                 device=device,
                 apply_preprocess_net_to_obs_only=True,
+                action_dim=int(np.prod(envs.get_action_shape())) if use_action else 0,
             ).to(device)
         else:
             raise ValueError
diff --git a/tianshou/utils/net/continuous.py b/tianshou/utils/net/continuous.py
index a0b85ed..05cd9d5 100644
--- a/tianshou/utils/net/continuous.py
+++ b/tianshou/utils/net/continuous.py
@@ -113,6 +113,8 @@ class Critic(CriticBase):
     :param apply_preprocess_net_to_obs_only: whether to apply `preprocess_net` to the observations only (before
         concatenating with the action) - and without the observations being modified in any way beforehand.
         This allows the actor's preprocessing network to be reused for the critic.
+    :param action_dim: with `apply_preprocess_net_to_obs_only`, the number of values by which the actions given
+        to :meth:`forward` extend the output of `preprocess_net`.
 
     For advanced usage (how to customize the network), please refer to
     :ref:`build_the_network`.
@@ -127,6 +129,7 @@ class Critic(CriticBase):
         linear_layer: TLinearLayer = nn.Linear,
         flatten_input: bool = True,
         apply_preprocess_net_to_obs_only: bool = False,
+        action_dim: int = 0,
     ) -> None:
         super().__init__()
         self.device = device
@@ -134,6 +137,8 @@ class Critic(CriticBase):
         self.output_dim = 1
         self.apply_preprocess_net_to_obs_only = apply_preprocess_net_to_obs_only
         input_dim = get_output_dim(preprocess_net, preprocess_net_output_dim)
+        if apply_preprocess_net_to_obs_only:
+            input_dim += action_dim
         self.last = MLP(
             input_dim,
             1,
-- 
2.43.0

