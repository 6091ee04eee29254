From 891f5ae44115106473155fbd1dba6b95a7a58de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 01/68] fix: resume when a worker has already consumed all of
 its chunks

---
 src/litdata/streaming/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 63b682a..ccbf016 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -368,6 +368,12 @@ class StreamingDataset(IterableDataset):
         self.worker_chunks = workers_chunks[worker_rank]
         self.worker_intervals = workers_intervals[worker_rank]
 
+        # this worker has already consumed all of its chunks, there is nothing left to resume
+        if self.worker_next_chunk_index >= self.num_chunks:
+            self.upcoming_indexes = []
+            self.global_index = self.stop_length
+            return
+
         # replay the indexes for the current chunks
         interval = self.worker_intervals[self.worker_next_chunk_index]
         current_indexes = np.arange(interval[1], interval[2])
-- 
2.43.0


From 6886775612893d8721029e5646fdba68af467654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 02/68] fix: keep the worker position when a restored
 dataloader state is saved again

---
 src/litdata/streaming/dataloader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index c510f46..d2e1eb2 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -458,10 +458,9 @@ class _ProfileWorkerLoop:
 class _StreamingMultiProcessingDataLoaderIter(_MultiProcessingDataLoaderIter):
     def __init__(self, loader: DataLoader) -> None:
         self._loader = loader
+        # when resuming, start from the worker following the one which produced the latest batch
         self._indexes = (
-            list(range(self._loader._latest_worker_idx, self._loader.num_workers))
-            if self._loader._latest_worker_idx > 0
-            else []
+            list(range(self._loader._latest_worker_idx + 1, self._loader.num_workers)) if self._loader.restore else []
         )
         self._num_workers = loader.num_workers
 
@@ -719,9 +718,10 @@ class StreamingDataLoader(DataLoader):
             self._num_samples_yielded_combined = obj["num_samples_yielded"]
 
         # Used to restart on the next DataLoader worker from the previous run.
-        self._latest_worker_idx = obj["latest_worker_idx"] + 1
+        self._latest_worker_idx = obj["latest_worker_idx"]
+        self._worker_idx = cycle(list(range(self.num_workers if self.num_workers > 0 else 1)))
         self._worker_idx_iter = iter(self._worker_idx)
-        for _ in range(self._latest_worker_idx):
+        for _ in range(self._latest_worker_idx + 1):
             next(self._worker_idx_iter)
 
         # Inform we are resuming and disable resetting the StreamingDataLoader state.
-- 
2.43.0


From bbe6f83784e3e0ca26bb0925cf3e25746523803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 03/68] fix: replay the sampling of uneven workers when
 resuming

Without drop_last the last rank gives its extra samples to a single worker; resuming after
the other workers were exhausted repeated some samples.
---
 src/litdata/streaming/dataset.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index ccbf016..de6f5d6 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -353,7 +353,12 @@ class StreamingDataset(IterableDataset):
         worker_end = worker_start + num_workers
 
         # replay sampling from each worker / chunks using the batch size
-        indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers)
+        indexes = _replay_sampling(
+            num_samples_yielded,
+            batch_size,
+            num_workers,
+            [sum(i[2] - i[1] for i in intervals) for intervals in workers_intervals[worker_start:worker_end]],
+        )
         chunks_index, indexes = _replay_chunks_sampling(
             workers_intervals={i: workers_intervals[j] for i, j in enumerate(range(worker_start, worker_end))},
             indexes=indexes,
@@ -659,10 +664,28 @@ def is_integer(value: str) -> bool:
         return False
 
 
-def _replay_sampling(num_samples_yielded: int, batch_size: int, num_workers: int) -> Dict[int, int]:
-    """This function replays the sampling from the dataloader."""
+def _replay_sampling(
+    num_samples_yielded: int, batch_size: int, num_workers: int, workers_sizes: Optional[List[int]] = None
+) -> Dict[int, int]:
+    """This function replays the sampling from the dataloader.
+
+    When provided, `workers_sizes` is the number of samples of each worker: an exhausted worker is skipped.
+
+    """
     divisible_num_batches_yielded = num_samples_yielded // (num_workers * batch_size)
 
+    if workers_sizes is not None and num_samples_yielded <= sum(workers_sizes):
+        divisible_num_batches_yielded = min(divisible_num_batches_yielded, min(workers_sizes) // batch_size)
+        indexes = {worker_idx: divisible_num_batches_yielded * batch_size for worker_idx in range(num_workers)}
+        num_samples_left = num_samples_yielded - sum(indexes.values())
+        worker_idx = 0
+        while num_samples_left > 0:
+            num_samples = min(batch_size, workers_sizes[worker_idx] - indexes[worker_idx], num_samples_left)
+            indexes[worker_idx] += num_samples
+            num_samples_left -= num_samples
+            worker_idx = (worker_idx + 1) % num_workers
+        return indexes
+
     indexes = {}
     for worker_idx in range(num_workers):
         indexes[worker_idx] = divisible_num_batches_yielded * batch_size
-- 
2.43.0


From cb993d0e8a64608e36e13687aae76e20356d3574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 04/68] fix: iterate an empty shuffled dataset

---
 src/litdata/streaming/shuffle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/shuffle.py b/src/litdata/streaming/shuffle.py
index 90e1085..a5cb126 100644
--- a/src/litdata/streaming/shuffle.py
+++ b/src/litdata/streaming/shuffle.py
@@ -112,7 +112,7 @@ class FullShuffle(Shuffle):
         # than in epoch 1 because shuffle a second time within the node.
         # This is done slighyly down this function.
         seed_shift = 1 if distributed_env.num_nodes > 1 else current_epoch
-        shuffled_indexes = np.random.RandomState([self.seed, seed_shift]).permutation(indexes)
+        shuffled_indexes = np.random.RandomState([self.seed, seed_shift]).permutation(len(indexes))
         shuffled_chunk_intervals = np.asarray(chunk_intervals)[shuffled_indexes].tolist()
 
         # 3. Compute the items budget of each rank
-- 
2.43.0


From 96b9fdaee1649155fe9e59153df0a4f86a93eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 05/68] fix: keep the region of interest of a subsampled
 dataset as plain integers

The numpy integers made the saved state unreadable by torch.load with its default weights_only=True.
---
 src/litdata/utilities/subsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/utilities/subsample.py b/src/litdata/utilities/subsample.py
index c73b697..581b24d 100644
--- a/src/litdata/utilities/subsample.py
+++ b/src/litdata/utilities/subsample.py
@@ -57,7 +57,7 @@ def subsample_filenames_and_roi(
     # bcoz tuple doesn't support item assignment
     subsampled_chunk_roi[-1] = (
         subsampled_chunk_roi[-1][0],
-        subsampled_chunk_roi[-1][1] - (cumsum_sizes[match] - item_count),
+        int(subsampled_chunk_roi[-1][1] - (cumsum_sizes[match] - item_count)),
     )
 
     assert sum(_chnk[1] - _chnk[0] for _chnk in subsampled_chunk_roi) == item_count
-- 
2.43.0


From ad5e51e79ac10a24d197f7e651e8ee8526646901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 06/68] fix: split a subsampled, shuffled or upsampled dataset
 consistently

The chunks were listed in the order of the index and the regions of interest in the order of the
subsample, so that splits could overlap or the split fail.
---
 src/litdata/utilities/train_test_split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litdata/utilities/train_test_split.py b/src/litdata/utilities/train_test_split.py
index b1332c6..5d51a29 100644
--- a/src/litdata/utilities/train_test_split.py
+++ b/src/litdata/utilities/train_test_split.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from litdata import StreamingDataset
 from litdata.constants import _INDEX_FILENAME
+from litdata.streaming.config import load_subsampled_chunks
 from litdata.utilities.dataset_utilities import load_index_file
 from litdata.utilities.subsample import shuffle_lists_together, subsample_filenames_and_roi
 
@@ -59,9 +60,8 @@ def train_test_split(
         data = load_index_file(input_dir.path)
 
         original_chunks = data["chunks"]
-        subsampled_chunks = [
-            _org_chunk for _org_chunk in original_chunks if _org_chunk["filename"] in dummy_subsampled_chunk_filename
-        ]
+        # keep the chunks aligned with their region of interest
+        subsampled_chunks = load_subsampled_chunks(dummy_subsampled_chunk_filename, original_chunks)
     else:
         raise ValueError("Couldn't load original chunk file.")
 
-- 
2.43.0


From 4374268d9a33de8077cde61c86b37807cfa6573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 07/68] fix: asking for the length of a combined dataset no
 longer changes its batch size and workers

---
 src/litdata/streaming/combined.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index ee5f999..2842fbe 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -113,7 +113,7 @@ class CombinedStreamingDataset(IterableDataset):
         return None
 
     def __len__(self) -> Optional[int]:
-        return self.get_len(1, 1)
+        return self.get_len(self.num_workers, self.batch_size if self.batch_size else 1)
 
     # total length of the datasets
     def _get_total_length(self) -> int:
@@ -147,6 +147,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def set_num_workers(self, num_workers: int) -> None:
         """Set the current number of workers to the datasets."""
+        self.num_workers = num_workers or 1
         for dataset in self._datasets:
             dataset.set_num_workers(num_workers)
 
-- 
2.43.0


From f13d9eb9a9029ab108654aa164f13a2d9946a902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 08/68] fix: a combined dataset streaming batch by batch leaves
 an exhausted dataset at once

---
 src/litdata/streaming/combined.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index 2842fbe..b4009cc 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -292,6 +292,7 @@ class _CombinedDatasetIterator(Iterator):
                         raise e
 
                     self._dataset_indexes[dataset_index] = None
+                    self._cur_dataset_index = -1  # an exhausted dataset can't complete the current batch
                     self._weights[dataset_index] = None  # type: ignore
                     new_sum = sum([w for w in self._weights if w is not None])
                     self._weights = [None if w is None else w / new_sum for w in self._weights]
-- 
2.43.0


From 74f5307d3b06a8a378e1ecff7742b4a467a9651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 09/68] fix: iterate a combined dataset on a rank where only
 empty datasets are left

---
 src/litdata/streaming/combined.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index b4009cc..5424c93 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -295,7 +295,8 @@ class _CombinedDatasetIterator(Iterator):
                     self._cur_dataset_index = -1  # an exhausted dataset can't complete the current batch
                     self._weights[dataset_index] = None  # type: ignore
                     new_sum = sum([w for w in self._weights if w is not None])
-                    self._weights = [None if w is None else w / new_sum for w in self._weights]
+                    # only datasets without any sample for this rank may be left
+                    self._weights = [None if w is None else (w / new_sum if new_sum else 1.0) for w in self._weights]
 
         # stop on the first iteration
         return self._get_sample(self._get_dataset_index())
-- 
2.43.0


From 47506ec435ff3cbc5487abb40a1886c9481101df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 10/68] fix: resume a combined dataset where each of its
 workers stopped

---
 src/litdata/streaming/combined.py   | 67 ++++++++++++++++++++++-------
 src/litdata/streaming/dataloader.py |  4 ++
 src/litdata/streaming/dataset.py    | 21 ++++++---
 3 files changed, 70 insertions(+), 22 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index 5424c93..dd59413 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -24,6 +24,7 @@ from litdata.utilities.env import _WorkerEnv
 
 __NUM_SAMPLES_YIELDED_KEY__ = "__NUM_SAMPLES_YIELDED__"
 __SAMPLES_KEY__ = "__SAMPLES__"
+__WORKER_RANK_KEY__ = "__WORKER_RANK__"
 
 logger = logging.getLogger("litdata.streaming.combined")
 
@@ -158,6 +159,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         """Reset the state of the dataset."""
+        self._num_samples_yielded = None
         for dataset in self._datasets:
             dataset.reset_state_dict()
 
@@ -188,6 +190,8 @@ class CombinedStreamingDataset(IterableDataset):
             self.batch_size,
             self._batching_method,
             self._iterate_over_all,
+            worker_env.rank,
+            self._force_override_state_dict,
         )
         return self._iterator
 
@@ -225,6 +229,14 @@ class CombinedStreamingDataset(IterableDataset):
         if self._use_streaming_dataloader:
             self._num_samples_yielded = state_dict["num_samples_yielded"]
 
+            # The workers don't consume the datasets evenly: let each of them know where it stopped
+            for dataset_idx, dataset in enumerate(self._datasets):
+                if str(dataset_idx) in state_dict["dataset"]:
+                    dataset._workers_num_samples_yielded = {
+                        worker_idx: samples_yielded[dataset_idx]
+                        for worker_idx, samples_yielded in state_dict["num_samples_yielded"].items()
+                    }
+
 
 class _CombinedDatasetIterator(Iterator):
     def __init__(
@@ -237,28 +249,23 @@ class _CombinedDatasetIterator(Iterator):
         batch_size: int,
         batching_method: BatchingMethodType,
         iterate_over_all: bool = False,
+        worker_rank: int = 0,
+        force_override_state_dict: bool = False,
     ) -> None:
         self._datasets = datasets
         self._dataset_iters = [iter(dataset) for dataset in datasets]
         self._dataset_indexes: List[Optional[int]] = list(range(len(datasets)))
-        self._num_samples_yielded = num_samples_yielded or [0 for _ in range(len(datasets))]
+        self._num_samples_yielded = list(num_samples_yielded or []) or [0 for _ in range(len(datasets))]
         self._original_weights = deepcopy(weights)
         self._weights = deepcopy(weights)
         self._rng = random.Random(seed)  # noqa: S311
         self._iterate_over_all = iterate_over_all
         self._batching_method = batching_method
         self._batch_size = batch_size
+        self._worker_rank = worker_rank
         self._is_done = False
 
-        if num_samples_yielded is not None:
-            self._num_samples_yielded = num_samples_yielded
-            for _ in range(sum(num_samples_yielded)):
-                choice_indexes: List[int] = [index for index in self._dataset_indexes if index is not None]
-                choice_weights: List[float] = [w for w in self._weights if w is not None]
-                self._rng.choices(choice_indexes, weights=choice_weights, k=1)
-
         self._use_streaming_dataloader = use_streaming_dataloader
-        self._is_done = False
 
         # Used to track the number of samples yielded in the current batch
         # and the current dataset index
@@ -266,6 +273,9 @@ class _CombinedDatasetIterator(Iterator):
         self._samples_yielded_in_batch = 0
         self._cur_dataset_index = -1
 
+        if num_samples_yielded is not None:
+            self._replay_sampling(num_samples_yielded, force_override_state_dict)
+
         logger.debug(
             _get_log_msg({"name": "iterating_combined_dataset", "ph": "B", "cname": ChromeTraceColors.LIGHT_BLUE})
         )
@@ -291,16 +301,42 @@ class _CombinedDatasetIterator(Iterator):
                         )
                         raise e
 
-                    self._dataset_indexes[dataset_index] = None
-                    self._cur_dataset_index = -1  # an exhausted dataset can't complete the current batch
-                    self._weights[dataset_index] = None  # type: ignore
-                    new_sum = sum([w for w in self._weights if w is not None])
-                    # only datasets without any sample for this rank may be left
-                    self._weights = [None if w is None else (w / new_sum if new_sum else 1.0) for w in self._weights]
+                    self._discard_dataset(dataset_index)
 
         # stop on the first iteration
         return self._get_sample(self._get_dataset_index())
 
+    def _discard_dataset(self, dataset_index: int) -> None:
+        # stop sampling from an exhausted dataset
+        self._dataset_indexes[dataset_index] = None
+        self._cur_dataset_index = -1  # an exhausted dataset can't complete the current batch
+        self._weights[dataset_index] = None  # type: ignore
+        new_sum = sum([w for w in self._weights if w is not None])
+        # only datasets without any sample for this rank may be left
+        self._weights = [None if w is None else (w / new_sum if new_sum else 1.0) for w in self._weights]
+
+    def _replay_sampling(self, num_samples_yielded: List[int], force_override_state_dict: bool) -> None:
+        """Draw the datasets again as they were drawn before the state was saved."""
+        if force_override_state_dict:
+            # the datasets might have changed: only move the generator forward
+            for _ in range(sum(num_samples_yielded)):
+                self._set_new_dataset_index()
+            return
+
+        num_samples_left = list(num_samples_yielded)
+        while sum(num_samples_left) > 0:
+            indexes_left = [index for index in self._dataset_indexes if index is not None]
+            if self._iterate_over_all and len(indexes_left) == 1:
+                break  # there is no choice left
+            dataset_index = self._get_dataset_index()
+            if num_samples_left[dataset_index] > 0:
+                num_samples_left[dataset_index] -= 1
+            elif self._iterate_over_all:
+                # it was drawn and had no more samples to yield
+                self._discard_dataset(dataset_index)
+            else:
+                break  # the weights have changed
+
     def _get_dataset_index(self) -> int:
         if self._batching_method == BatchingMethod.STRATIFIED:
             # For every sample, randomly select a dataset (weighted)
@@ -335,6 +371,7 @@ class _CombinedDatasetIterator(Iterator):
             return {
                 __SAMPLES_KEY__: sample,
                 __NUM_SAMPLES_YIELDED_KEY__: self._num_samples_yielded,
+                __WORKER_RANK_KEY__: self._worker_rank,
             }
         return sample
 
diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index d2e1eb2..17ef3a5 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -39,6 +39,7 @@ from litdata.streaming import Cache
 from litdata.streaming.combined import (
     __NUM_SAMPLES_YIELDED_KEY__,
     __SAMPLES_KEY__,
+    __WORKER_RANK_KEY__,
     CombinedStreamingDataset,
 )
 from litdata.streaming.dataset import StreamingDataset
@@ -504,6 +505,7 @@ class StreamingDataLoaderCollateFn:
             return {
                 __SAMPLES_KEY__: batch,
                 __NUM_SAMPLES_YIELDED_KEY__: list(torch.tensor(items[-1][__NUM_SAMPLES_YIELDED_KEY__]).reshape(-1, 1)),
+                __WORKER_RANK_KEY__: torch.tensor([items[-1][__WORKER_RANK_KEY__]]),
             }
 
         return self.collate_fn(items)
@@ -654,6 +656,8 @@ class StreamingDataLoader(DataLoader):
             for batch in super().__iter__():
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 if isinstance(batch, dict) and __NUM_SAMPLES_YIELDED_KEY__ in batch:
+                    # the workers which are already exhausted are skipped
+                    self._latest_worker_idx = batch[__WORKER_RANK_KEY__][-1].item()
                     self._num_samples_yielded_combined[self._latest_worker_idx] = [
                         sample[-1].item() if self.batch_size > 1 else sample.item()
                         for sample in batch[__NUM_SAMPLES_YIELDED_KEY__]
diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index de6f5d6..08dc6a2 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -184,6 +184,8 @@ class StreamingDataset(IterableDataset):
         self.shuffler: Optional[Shuffle] = None
         self.serializers = serializers
         self._state_dict: Optional[Dict[str, Any]] = None
+        # the number of samples yielded by each worker, when known from the restored state
+        self._workers_num_samples_yielded: Optional[Dict[int, int]] = None
         self._force_override_state_dict = force_override_state_dict
         # Has slightly different meaning in the context of the dataset
         # We consider `num_workers = 0` from `torch.utils.DataLoader` still as 1 worker (the main process)
@@ -352,13 +354,17 @@ class StreamingDataset(IterableDataset):
         worker_start = self.distributed_env.global_rank * num_workers
         worker_end = worker_start + num_workers
 
-        # replay sampling from each worker / chunks using the batch size
-        indexes = _replay_sampling(
-            num_samples_yielded,
-            batch_size,
-            num_workers,
-            [sum(i[2] - i[1] for i in intervals) for intervals in workers_intervals[worker_start:worker_end]],
-        )
+        if self._workers_num_samples_yielded is not None:
+            # the position of each worker is known
+            indexes = {i: self._workers_num_samples_yielded.get(i, 0) for i in range(num_workers)}
+        else:
+            # replay sampling from each worker / chunks using the batch size
+            indexes = _replay_sampling(
+                num_samples_yielded,
+                batch_size,
+                num_workers,
+                [sum(i[2] - i[1] for i in intervals) for intervals in workers_intervals[worker_start:worker_end]],
+            )
         chunks_index, indexes = _replay_chunks_sampling(
             workers_intervals={i: workers_intervals[j] for i, j in enumerate(range(worker_start, worker_end))},
             indexes=indexes,
@@ -515,6 +521,7 @@ class StreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         self._state_dict = None
+        self._workers_num_samples_yielded = None
 
     def _validate_state_dict(self) -> None:
         if self._force_override_state_dict:
-- 
2.43.0


From a4f877511cabb0772e222962660b7227763f49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 11/68] fix: read again from the last chunk of a finished
 iteration

---
 src/litdata/streaming/item_loader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ea7dcb8..809bf41 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -301,6 +301,7 @@ class PyTreeLoader(BaseItemLoader):
         if self._open_handle is not None:
             self._open_handle.close()
             self._open_handle = None
+            self._chunk_filepath = None
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         logger.debug(
-- 
2.43.0


From 45f7f3c93e7e064cdfb65538de77216e8720dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 12/68] fix: copy or pickle a dataset whose remote chunks have
 been read

---
 src/litdata/streaming/item_loader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 809bf41..c8b0540 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -366,6 +366,7 @@ class PyTreeLoader(BaseItemLoader):
 
     def __getstate__(self):
         state = self.__dict__.copy()
+        state["_force_download_queue"] = None
         state["_open_handle"] = None
         state["_chunk_filepath"] = None
         return state
-- 
2.43.0


From e5828983c0b6e35f0082abdc0b8fd21403abf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 13/68] fix: survive the deletion of a chunk between the two
 checks of its file

---
 src/litdata/streaming/item_loader.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index c8b0540..8685152 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -42,6 +42,14 @@ Interval = namedtuple("Interval", ["chunk_start", "roi_start_idx", "roi_end_idx"
 logger = logging.getLogger("litdata.streaming.item_loader")
 
 
+def _is_chunk_available(chunk_filepath: str, filesize_bytes: int) -> bool:
+    """Whether the whole chunk is there. The chunk may be deleted in the background at any time."""
+    try:
+        return os.stat(chunk_filepath).st_size >= filesize_bytes
+    except FileNotFoundError:
+        return False
+
+
 class BaseItemLoader(ABC):
     """The base item loader is responsible to decide how the items within a chunk are loaded."""
 
@@ -180,12 +188,12 @@ class PyTreeLoader(BaseItemLoader):
 
         if chunk_filepath != self._chunk_filepath:
             start_time = time()
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+            exists = _is_chunk_available(chunk_filepath, filesize_bytes)
             requested_force_download = False
 
             while not exists:
                 sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+                exists = _is_chunk_available(chunk_filepath, filesize_bytes)
 
                 if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
                     self.force_download(chunk_index)
@@ -475,14 +483,14 @@ class TokensLoader(BaseItemLoader):
         )
 
         if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > filesize_bytes
+            exists = _is_chunk_available(chunk_filepath, filesize_bytes)
 
             start_time = time()
             requested_force_download = False
 
             while not exists:
                 sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+                exists = _is_chunk_available(chunk_filepath, filesize_bytes)
 
                 if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
                     self.force_download(chunk_index)
@@ -664,11 +672,11 @@ class ParquetLoader(BaseItemLoader):
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
         if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+            exists = _is_chunk_available(chunk_filepath, filesize_bytes)
 
             while not exists:
                 sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+                exists = _is_chunk_available(chunk_filepath, filesize_bytes)
 
             self._chunk_filepaths[chunk_filepath] = True
 
-- 
2.43.0


From ba73875be935b1935372b536f5fb74819397e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 14/68] fix: decompress a chunk atomically

---
 src/litdata/streaming/config.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 3740c9b..9ccd9f4 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -14,6 +14,8 @@
 import logging
 import os
 from collections import defaultdict
+from contextlib import suppress
+from threading import get_ident
 from typing import Any, Dict, List, Optional, Tuple
 
 from litdata.constants import _INDEX_FILENAME
@@ -155,17 +157,27 @@ class ChunksConfig:
         if os.path.exists(target_local_chunkpath):
             return
 
-        with open(local_chunkpath, "rb") as f:
-            data = f.read()
-
-        # delete the files only if they were downloaded
-        if self._downloader is not None:
-            os.remove(local_chunkpath)
+        try:
+            with open(local_chunkpath, "rb") as f:
+                data = f.read()
+        except FileNotFoundError:
+            # another worker has just decompressed the chunk and removed the downloaded file
+            if self._downloader is None:
+                raise
+            return
 
         data = self._compressor.decompress(data)
 
-        with open(target_local_chunkpath, "wb") as f:
+        # make an atomic operation to be safe: a reader never sees a partially written chunk
+        temp_file_path = f"{target_local_chunkpath}.{os.getpid()}-{get_ident()}.tmp"
+        with open(temp_file_path, "wb") as f:
             f.write(data)
+        os.rename(temp_file_path, target_local_chunkpath)
+
+        # delete the files only if they were downloaded
+        if self._downloader is not None:
+            with suppress(FileNotFoundError):
+                os.remove(local_chunkpath)
 
     @property
     def intervals(self) -> List[Interval]:
-- 
2.43.0


From 09f2ab346da38eca9c5167621e3fea9bd7142285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 15/68] fix: leave the folder name alone when stripping the
 compression from a chunk path

---
 src/litdata/streaming/config.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 9ccd9f4..fcaef48 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -134,7 +134,7 @@ class ChunksConfig:
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
                 # it as having been requested by something
-                self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+                self._downloader._increment_local_lock(self._without_compression(local_chunkpath))
                 pass
             return
 
@@ -142,17 +142,21 @@ class ChunksConfig:
             return
 
         if not skip_lock:
-            self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+            self._downloader._increment_local_lock(self._without_compression(local_chunkpath))
 
         self._downloader.download_chunk_from_index(chunk_index)
 
         self.try_decompress(local_chunkpath)
 
+    def _without_compression(self, chunk_filepath: str) -> str:
+        dirname, filename = os.path.split(chunk_filepath)
+        return os.path.join(dirname, filename.replace(f".{self._compressor_name}", ""))
+
     def try_decompress(self, local_chunkpath: str) -> None:
         if self._compressor is None:
             return
 
-        target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+        target_local_chunkpath = self._without_compression(local_chunkpath)
 
         if os.path.exists(target_local_chunkpath):
             return
@@ -262,7 +266,7 @@ class ChunksConfig:
         local_chunkpath = os.path.join(self._cache_dir, chunk["filename"])
 
         if self._compressor is not None:
-            local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+            local_chunkpath = self._without_compression(local_chunkpath)
 
         begin = self._intervals[index.chunk_index][0]
 
-- 
2.43.0


From 2ecf5ea29dc1b1990b1a57c3c209503746f20183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 16/68] fix: do not download again a compressed chunk which is
 already in the cache

---
 src/litdata/streaming/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index fcaef48..8c656b8 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -129,7 +129,7 @@ class ChunksConfig:
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
 
-        if os.path.exists(local_chunkpath):
+        if os.path.exists(local_chunkpath) or os.path.exists(self._without_compression(local_chunkpath)):
             self.try_decompress(local_chunkpath)
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
-- 
2.43.0


From 55819597347e59e375c00b82b6d8908b571c0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 17/68] fix: survive the deletion of a chunk before it is
 opened

---
 src/litdata/streaming/item_loader.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 8685152..ff5459c 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -50,6 +50,16 @@ def _is_chunk_available(chunk_filepath: str, filesize_bytes: int) -> bool:
         return False
 
 
+def _open_chunk(chunk_filepath: str, filesize_bytes: int) -> Optional[FileIO]:
+    """Open the chunk if the whole of it is there. The chunk may be deleted in the background at any time."""
+    if not _is_chunk_available(chunk_filepath, filesize_bytes):
+        return None
+    try:
+        return open(chunk_filepath, "rb", 0)
+    except FileNotFoundError:
+        return None
+
+
 class BaseItemLoader(ABC):
     """The base item loader is responsible to decide how the items within a chunk are loaded."""
 
@@ -188,12 +198,12 @@ class PyTreeLoader(BaseItemLoader):
 
         if chunk_filepath != self._chunk_filepath:
             start_time = time()
-            exists = _is_chunk_available(chunk_filepath, filesize_bytes)
+            open_handle = _open_chunk(chunk_filepath, filesize_bytes)
             requested_force_download = False
 
-            while not exists:
+            while open_handle is None:
                 sleep(0.1)
-                exists = _is_chunk_available(chunk_filepath, filesize_bytes)
+                open_handle = _open_chunk(chunk_filepath, filesize_bytes)
 
                 if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
                     self.force_download(chunk_index)
@@ -207,7 +217,7 @@ class PyTreeLoader(BaseItemLoader):
             if self._open_handle is not None:
                 self._open_handle.close()
 
-            self._open_handle = open(chunk_filepath, "rb", 0)  # noqa: SIM115
+            self._open_handle = open_handle
 
         if self._config.get("encryption"):
             data = self._load_encrypted_data(chunk_filepath, chunk_index, offset, encryption)
-- 
2.43.0


From 6e20785ab65f952b385a8b8095ec5cc839932721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 18/68] fix: do not leave behind the lock of a chunk read
 before the background thread gets to it

---
 src/litdata/streaming/reader.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 99c5f70..744cc01 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -17,7 +17,7 @@ import os
 import warnings
 from contextlib import suppress
 from queue import Empty, Queue
-from threading import Event, Thread
+from threading import Event, Lock, Thread
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 from filelock import FileLock, Timeout
@@ -76,6 +76,12 @@ class PrepareChunksThread(Thread):
 
         self._rank = rank
 
+        # The chunks this thread has marked as in use, and the ones the reader was done with even before that:
+        # a chunk left in the cache by a previous epoch can be read before this thread gets to it.
+        self._in_use_lock = Lock()
+        self._in_use: List[int] = []
+        self._released_early: List[int] = []
+
         # Check whether a dataset slice fits on the node
         num_bytes_per_nodes = self._config.num_bytes // self._distributed_env.num_nodes
         self._delete_chunks_when_processed = num_bytes_per_nodes > max_cache_size if max_cache_size else False
@@ -101,6 +107,25 @@ class PrepareChunksThread(Thread):
             except Exception:
                 return 1
 
+    def _mark_in_use(self, chunk_index: int) -> None:
+        """Track the chunk whose local lock has just been incremented, unless the reader is already done with it."""
+        with self._in_use_lock:
+            released = chunk_index in self._released_early
+            if released:
+                self._released_early.remove(chunk_index)
+            else:
+                self._in_use.append(chunk_index)
+        if released:
+            self._decrement_local_lock(chunk_index)
+
+    def release(self, chunk_index: int) -> None:
+        """Inform the thread that the reader is done with the chunk."""
+        with self._in_use_lock:
+            in_use = chunk_index in self._in_use
+            (self._in_use.remove if in_use else self._released_early.append)(chunk_index)
+        if in_use:
+            self._decrement_local_lock(chunk_index)
+
     def _decrement_local_lock(self, chunk_index: int) -> int:
         """Remove a count from the local lock, return the remaining count."""
         chunk_filepath, _, _ = self._config[ChunkedIndex(index=-1, chunk_index=chunk_index)]
@@ -234,6 +259,7 @@ class PrepareChunksThread(Thread):
 
                 if chunk_index is not None:
                     self._config.download_chunk_from_index(chunk_index)
+                    self._mark_in_use(chunk_index)
 
                     # Preload item if possible to gain some time but only
                     # if this is one of the pre-downloaded chunk
@@ -413,7 +439,7 @@ class BinaryReader:
             assert self._last_chunk_index is not None
 
             # inform the chunk has been completely consumed
-            self._prepare_thread._decrement_local_lock(self._last_chunk_index)
+            self._prepare_thread.release(self._last_chunk_index)
             self._prepare_thread.delete([self._last_chunk_index])
 
         if index.chunk_index != self._last_chunk_index:
@@ -426,7 +452,7 @@ class BinaryReader:
 
         if index.is_last_index and self._prepare_thread:
             # inform the thread it is time to stop
-            self._prepare_thread._decrement_local_lock(index.chunk_index)
+            self._prepare_thread.release(index.chunk_index)
             self._prepare_thread.delete([index.chunk_index])
             self._prepare_thread.stop()
             if self._max_cache_size and self._prepare_thread.is_alive():
-- 
2.43.0


From 5e6616ca22635a0840a82683571f641dc6c8be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 19/68] fix: keep the cache within its limit when the reader is
 faster than the downloads

---
 src/litdata/streaming/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 744cc01..d26a064 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -213,8 +213,8 @@ class PrepareChunksThread(Thread):
         return
 
     def _can_delete_chunk(self) -> bool:
-        if self._delete_chunks_when_processed:
-            return self._pre_download_counter >= self._max_pre_download - 1
+        if self._delete_chunks_when_processed and self._pre_download_counter >= self._max_pre_download - 1:
+            return True
         return (
             self._max_cache_size is not None
             and _get_folder_size(self._config._cache_dir, self._config) >= self._max_cache_size
-- 
2.43.0


From b9d30a329440580b73f5cb490fc993b54b7faa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:37 +0000
Subject: [PATCH 20/68] fix: several processes may create the cache folder of a
 dataset at the same time

---
 src/litdata/utilities/dataset_utilities.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index ec3bb73..7f81afa 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -177,10 +177,11 @@ def _clear_cache_dir_if_updated(input_dir_hash_filepath: str, updated_at_hash: s
 
     """
     if os.path.exists(input_dir_hash_filepath):
-        # check if it only contains one directory with updated_at_hash
-        dir_list = os.listdir(input_dir_hash_filepath)
-        if not (len(dir_list) == 1 and dir_list[0] == updated_at_hash):
-            shutil.rmtree(input_dir_hash_filepath)
+        # only the updated_at_hash directory should be left. The other processes may be doing this at the same time, and
+        # may already be using their updated_at_hash directory.
+        for dirname in os.listdir(input_dir_hash_filepath):
+            if dirname != updated_at_hash:
+                shutil.rmtree(os.path.join(input_dir_hash_filepath, dirname), ignore_errors=True)
 
 
 def _try_create_cache_dir(
-- 
2.43.0


From 58497ac57bea724146c662707a5e7281a13d7f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:45 +0000
Subject: [PATCH 21/68] fix: keep the background thread alive when another
 worker deletes the same chunk

---
 src/litdata/streaming/item_loader.py | 10 +++++++---
 src/litdata/streaming/reader.py      | 12 ++++++------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ff5459c..76b3980 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -15,6 +15,7 @@ import logging
 import os
 from abc import ABC, abstractmethod
 from collections import defaultdict, namedtuple
+from contextlib import suppress
 from copy import deepcopy
 from io import BytesIO, FileIO
 from multiprocessing import Queue
@@ -332,7 +333,8 @@ class PyTreeLoader(BaseItemLoader):
             )
         )
         if os.path.exists(chunk_filepath):
-            os.remove(chunk_filepath)
+            with suppress(FileNotFoundError):  # another worker may have deleted it
+                os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
                 {
@@ -555,7 +557,8 @@ class TokensLoader(BaseItemLoader):
                 self._mmaps[chunk_index]._mmap.close()
                 del self._mmaps[chunk_index]
                 del self._counter[chunk_index]
-            os.remove(chunk_filepath)
+            with suppress(FileNotFoundError):  # another worker may have deleted it
+                os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
                 {
@@ -802,7 +805,8 @@ class ParquetLoader(BaseItemLoader):
         if chunk_index in self._chunk_row_group_item_read_count:
             del self._chunk_row_group_item_read_count[chunk_index]
         if os.path.exists(chunk_filepath):
-            os.remove(chunk_filepath)
+            with suppress(FileNotFoundError):  # another worker may have deleted it
+                os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
                 {
diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index d26a064..f666638 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -99,13 +99,13 @@ class PrepareChunksThread(Thread):
 
     def _remaining_locks(self, chunkpath: str) -> int:
         countpath = chunkpath + ".cnt"
-        if not os.path.exists(countpath):
-            return 0
-        with open(countpath) as count_f:
-            try:
+        try:
+            with open(countpath) as count_f:
                 return int(count_f.read().strip())
-            except Exception:
-                return 1
+        except FileNotFoundError:
+            return 0
+        except Exception:
+            return 1
 
     def _mark_in_use(self, chunk_index: int) -> None:
         """Track the chunk whose local lock has just been incremented, unless the reader is already done with it."""
-- 
2.43.0


From cf1edd1958952fd8ead059c6d892183097a8e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 22/68] fix: merge the chunk indexes in the numeric order of
 the workers

---
 src/litdata/streaming/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2771106..85925ab 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -13,6 +13,7 @@
 
 import json
 import os
+import re
 import uuid
 import warnings
 from dataclasses import dataclass
@@ -490,7 +491,9 @@ class BinaryWriter:
             chunks_info.extend(existing_index["chunks"])
             config = existing_index["config"]
 
-        for index_filename in sorted(index_files):
+        # sorted by rank, as a number, for the samples to be in the order of the workers
+        index_files = sorted(index_files, key=lambda f: (int(m.group()) if (m := re.match(r"\d+", f)) else -1, f))
+        for index_filename in index_files:
             chunk_path = os.path.join(self._cache_dir, index_filename)
             with open(chunk_path) as f:
                 data = json.load(f)
-- 
2.43.0


From 5e07c6a9485244df2d2cfa78b18881f6f27ed5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:51 +0000
Subject: [PATCH 23/68] fix: pickle the numpy arrays of types which can't be
 restored from their bytes

---
 src/litdata/streaming/serializers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index abf2c25..9eab828 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -298,6 +298,11 @@ class NoHeaderTensorSerializer(Serializer):
         return isinstance(item, torch.Tensor) and len(item.shape) == 1
 
 
+def _has_supported_dtype(item: np.ndarray) -> bool:
+    """Whether the bytes of the array along with its type are enough to restore it. Otherwise, the array is pickled."""
+    return not item.dtype.hasobject and item.dtype in _NUMPY_DTYPES_MAPPING.values()
+
+
 class NumpySerializer(Serializer):
     """The NumpySerializer serialize and deserialize numpy to and from bytes."""
 
@@ -331,7 +336,7 @@ class NumpySerializer(Serializer):
         return np.reshape(tensor, shape)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) > 1
+        return isinstance(item, np.ndarray) and len(item.shape) > 1 and _has_supported_dtype(item)
 
 
 class NoHeaderNumpySerializer(Serializer):
@@ -354,7 +359,7 @@ class NoHeaderNumpySerializer(Serializer):
         return np.frombuffer(data, dtype=self._dtype)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) == 1
+        return isinstance(item, np.ndarray) and len(item.shape) == 1 and _has_supported_dtype(item)
 
 
 class PickleSerializer(Serializer):
-- 
2.43.0


From 22bffe7145e4841e23912501f54a1a9d36a14e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:28 +0000
Subject: [PATCH 24/68] fix: give every tensor read its own memory

---
 src/litdata/streaming/serializers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index 9eab828..8c60a64 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -262,7 +262,8 @@ class TensorSerializer(Serializer):
         idx_start = 8 + 4 * shape_size
         idx_end = len(data)
         if idx_end > idx_start:
-            tensor = torch.frombuffer(data[idx_start:idx_end], dtype=dtype)
+            # copy: the tensor is writable, unlike bytes (a single byte is even shared by the whole interpreter)
+            tensor = torch.frombuffer(bytearray(memoryview(data)[idx_start:idx_end]), dtype=dtype)
         else:
             assert idx_start == idx_end, "The starting index should never be greater than end ending index."
             tensor = torch.empty(shape, dtype=dtype)
@@ -292,7 +293,12 @@ class NoHeaderTensorSerializer(Serializer):
 
     def deserialize(self, data: bytes) -> torch.Tensor:
         assert self._dtype
-        return torch.frombuffer(data, dtype=self._dtype) if len(data) > 0 else torch.empty((0,), dtype=self._dtype)
+        # copy: the tensor is writable, unlike bytes (a single byte is even shared by the whole interpreter)
+        return (
+            torch.frombuffer(bytearray(data), dtype=self._dtype)
+            if len(data) > 0
+            else torch.empty((0,), dtype=self._dtype)
+        )
 
     def can_serialize(self, item: torch.Tensor) -> bool:
         return isinstance(item, torch.Tensor) and len(item.shape) == 1
-- 
2.43.0


From 5e7b3f58c1619ee8778e5f94e6a68f5eabab36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 25/68] fix: store the palette of palette images

---
 src/litdata/streaming/serializers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index 8c60a64..5c3dd95 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -61,9 +61,14 @@ class PILSerializer(Serializer):
     """The PILSerializer serialize and deserialize PIL Image to and from bytes."""
 
     def serialize(self, item: Any) -> Tuple[bytes, Optional[str]]:
-        mode = item.mode.encode("utf-8")
         width, height = item.size
         raw = item.tobytes()
+        mode = item.mode
+        if mode in ("P", "PA"):
+            # the pixels are indices in a palette, stored after them
+            mode = f"{mode}:{item.palette.mode}"
+            raw += bytes(item.getpalette(item.palette.mode))
+        mode = mode.encode("utf-8")
         ints = np.array([width, height, len(mode)], np.uint32)
         return ints.tobytes() + mode + raw, None
 
@@ -79,7 +84,13 @@ class PILSerializer(Serializer):
         mode = data[idx:idx2].decode("utf-8")
         size = width, height
         raw = data[idx2:]
-        return Image.frombytes(mode, size, raw)  # pyright: ignore
+        mode, _, palette_mode = mode.partition(":")
+        if not palette_mode:
+            return Image.frombytes(mode, size, raw)  # pyright: ignore
+        num_pixels_bytes = int(width) * int(height) * Image.getmodebands(mode)
+        image = Image.frombytes(mode, size, raw[:num_pixels_bytes])  # pyright: ignore
+        image.putpalette(raw[num_pixels_bytes:], palette_mode)
+        return image
 
     def can_serialize(self, item: Any) -> bool:
         if not _PIL_AVAILABLE:
-- 
2.43.0


From 88f41233635d6447e4642652640c12d66773ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 26/68] fix: refuse an item structured differently from the
 first one

---
 src/litdata/streaming/writer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 85925ab..b842c2f 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -27,7 +27,7 @@ from litdata.processing.utilities import get_worker_rank
 from litdata.streaming.compression import _COMPRESSORS, Compressor
 from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader
 from litdata.streaming.serializers import Serializer, _get_serializers
-from litdata.utilities._pytree import PyTree, tree_flatten, treespec_dumps
+from litdata.utilities._pytree import PyTree, _is_leaf, tree_flatten, treespec_dumps
 from litdata.utilities.encryption import Encryption, EncryptionLevel
 from litdata.utilities.env import _DistributedEnv, _WorkerEnv
 from litdata.utilities.format import _convert_bytes_to_int, _human_readable_bytes
@@ -177,6 +177,12 @@ class BinaryWriter:
             self._data_format = data_format
             self._data_spec = data_spec
         else:
+            if data_spec != self._data_spec:
+                # same structure with other containers or another order of the keys; raises a ValueError otherwise
+                flattened = self._data_spec.flatten_up_to(items)
+                if not all(_is_leaf(leaf) for leaf in flattened):
+                    raise ValueError(f"Expected an item structured as {self._data_spec}. Found {data_spec}.")
+
             # tiny optimization to avoid looping over all the data format
             self._serialize_with_data_format(flattened, sizes, data, self._data_format)
 
@@ -202,7 +208,9 @@ class BinaryWriter:
         assert data_format
         for element, item_format in zip(item, data_format):
             serializer = self._serializers_extra[item_format]
-            serialized_item, _ = serializer.serialize(element)
+            serialized_item, name = serializer.serialize(element)
+            if name != item_format and item_format.startswith("no_header_"):
+                raise ValueError(f"Expected the format `{item_format}`, the one of the first item. Found `{name}`.")
             data.append(serialized_item)
             sizes.append(serializer.size if hasattr(serializer, "size") else len(serialized_item))
 
-- 
2.43.0


From 7aaea1c9d1af4b438690fffd5a8abe2867576e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 27/68] fix: refuse a value which the format of the first item
 can't hold

---
 src/litdata/streaming/serializers.py | 36 ++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index 5c3dd95..2689a1c 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -169,6 +169,9 @@ class JPEGArraySerializer(Serializer):
     """The JPEGArraySerializer serializes and deserializes lists of JPEG images to and from bytes."""
 
     def serialize(self, item: Any) -> Tuple[bytes, Optional[str]]:
+        if len(item) == 0:
+            raise ValueError("Number of images must be positive")
+
         # Store number of images as first 4 bytes
         n_images_bytes = np.uint32(len(item)).tobytes()
 
@@ -238,6 +241,8 @@ class BytesSerializer(Serializer):
     """The BytesSerializer serialize and deserialize integer to and from bytes."""
 
     def serialize(self, item: bytes) -> Tuple[bytes, Optional[str]]:
+        if not isinstance(item, (bytes, bytearray)):
+            raise ValueError(f"Expected bytes, as in the first item. Found {type(item)}.")
         return item, None
 
     def deserialize(self, item: bytes) -> bytes:
@@ -299,6 +304,8 @@ class NoHeaderTensorSerializer(Serializer):
         self._dtype = _TORCH_DTYPES_MAPPING[int(data_format.split(":")[1])]
 
     def serialize(self, item: torch.Tensor) -> Tuple[bytes, Optional[str]]:
+        if len(item.shape) != 1:
+            raise ValueError(f"Expected a tensor with one dimension, as in the first item. Found {item.shape}.")
         dtype_indice = self._dtype_to_indices[item.dtype]
         return item.numpy().tobytes(order="C"), f"no_header_tensor:{dtype_indice}"
 
@@ -315,17 +322,13 @@ class NoHeaderTensorSerializer(Serializer):
         return isinstance(item, torch.Tensor) and len(item.shape) == 1
 
 
-def _has_supported_dtype(item: np.ndarray) -> bool:
-    """Whether the bytes of the array along with its type are enough to restore it. Otherwise, the array is pickled."""
-    return not item.dtype.hasobject and item.dtype in _NUMPY_DTYPES_MAPPING.values()
-
-
 class NumpySerializer(Serializer):
     """The NumpySerializer serialize and deserialize numpy to and from bytes."""
 
     def __init__(self) -> None:
         super().__init__()
-        self._dtype_to_indices = {v: k for k, v in _NUMPY_DTYPES_MAPPING.items()}
+        # Note: the bytes of an array of objects are their addresses
+        self._dtype_to_indices = {v: k for k, v in _NUMPY_DTYPES_MAPPING.items() if not v.hasobject}
 
     def serialize(self, item: np.ndarray) -> Tuple[bytes, Optional[str]]:
         dtype_indice = self._dtype_to_indices[item.dtype]
@@ -353,7 +356,7 @@ class NumpySerializer(Serializer):
         return np.reshape(tensor, shape)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) > 1 and _has_supported_dtype(item)
+        return isinstance(item, np.ndarray) and len(item.shape) > 1 and item.dtype in self._dtype_to_indices
 
 
 class NoHeaderNumpySerializer(Serializer):
@@ -361,13 +364,16 @@ class NoHeaderNumpySerializer(Serializer):
 
     def __init__(self) -> None:
         super().__init__()
-        self._dtype_to_indices = {v: k for k, v in _NUMPY_DTYPES_MAPPING.items()}
+        # Note: the bytes of an array of objects are their addresses
+        self._dtype_to_indices = {v: k for k, v in _NUMPY_DTYPES_MAPPING.items() if not v.hasobject}
         self._dtype: Optional[np.dtype] = None
 
     def setup(self, data_format: str) -> None:
         self._dtype = _NUMPY_DTYPES_MAPPING[int(data_format.split(":")[1])]
 
     def serialize(self, item: np.ndarray) -> Tuple[bytes, Optional[str]]:
+        if len(item.shape) != 1:
+            raise ValueError(f"Expected an array with one dimension, as in the first item. Found {item.shape}.")
         dtype_indice: int = self._dtype_to_indices[item.dtype]
         return item.tobytes(order="C"), f"no_header_numpy:{dtype_indice}"
 
@@ -376,7 +382,7 @@ class NoHeaderNumpySerializer(Serializer):
         return np.frombuffer(data, dtype=self._dtype)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) == 1 and _has_supported_dtype(item)
+        return isinstance(item, np.ndarray) and len(item.shape) == 1 and item.dtype in self._dtype_to_indices
 
 
 class PickleSerializer(Serializer):
@@ -455,7 +461,10 @@ class NumericSerializer:
         self.size = self.dtype().nbytes
 
     def serialize(self, obj: Any) -> Tuple[bytes, Optional[str]]:
-        return self.dtype(obj).tobytes(), None
+        data = self.dtype(obj).tobytes()
+        if len(data) != self.size:
+            raise ValueError(f"Expected a number, as in the first item. Found {obj!r}.")
+        return data, None
 
     def deserialize(self, data: bytes) -> Any:
         return np.frombuffer(data, self.dtype)[0]
@@ -465,6 +474,11 @@ class IntegerSerializer(NumericSerializer, Serializer):
     def __init__(self) -> None:
         super().__init__(np.int64)
 
+    def serialize(self, obj: Any) -> Tuple[bytes, Optional[str]]:
+        if self.dtype(obj) != obj:
+            raise ValueError(f"Expected an integer, as in the first item. Found {obj!r}.")
+        return super().serialize(obj)
+
     def can_serialize(self, data: int) -> bool:
         return isinstance(data, int)
 
@@ -489,6 +503,8 @@ class BooleanSerializer(Serializer):
         Returns:
             Tuple containing the serialized bytes and None for the format string
         """
+        if not isinstance(item, (bool, np.bool_)) and item not in (0, 1):
+            raise ValueError(f"Expected a boolean, as in the first item. Found {item!r}.")
         return np.bool_(item).tobytes(), None
 
     def deserialize(self, data: bytes) -> bool:
-- 
2.43.0


From a2ae706d73b9ea46b09458d88aebf52c72d31528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 28/68] fix: never delete the input files found outside of the
 input_dir

---
 src/litdata/processing/data_processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1cade64..e578fb2 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -673,6 +673,10 @@ class BaseWorker:
 
             paths = []
             for index, path in indexed_paths.items():
+                flattened_item[index] = path
+                if self.input_dir.path is not None and not path.startswith(self.input_dir.path):
+                    # only the files of the input_dir are copied to the cache, and deleted from there
+                    continue
                 paths.append(path)
                 if (
                     self.input_dir
-- 
2.43.0


From 96620717f95e1732cb18350fcb98b69a22fd544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 29/68] fix: give the workers the items themselves when
 balancing them by weight or file size

---
 src/litdata/processing/data_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index e578fb2..3670a5c 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -359,7 +359,11 @@ def _map_items_to_workers_weighted(
         else:
             print(f"Worker {worker_id} gets ({len(worker_items[worker_id])}) items for a total weight of {size}.")
 
-    return [np.random.permutation(worker_items[worker_id]).tolist() for worker_id in worker_ids_this_node]
+    # permute the positions, as numpy would convert the items themselves
+    return [
+        [worker_items[worker_id][index] for index in np.random.permutation(len(worker_items[worker_id]))]
+        for worker_id in worker_ids_this_node
+    ]
 
 
 def _get_num_bytes(item: Any, base_path: str) -> int:
-- 
2.43.0


From ec5c3970e54e59d3ba683383a3af87f85bb16be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 30/68] fix: process the files in order when several
 downloaders fetch them

---
 src/litdata/processing/data_processor.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 3670a5c..92492c0 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -29,7 +29,7 @@ from multiprocessing import Process, Queue
 from pathlib import Path
 from queue import Empty
 from time import sleep, time
-from typing import Any, Dict, List, Optional, Tuple, TypeVar, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, TypeVar, Union
 from urllib import parse
 
 import numpy as np
@@ -504,6 +504,8 @@ class BaseWorker:
         self._counter = 0
         self._last_time = time()
         self._index_counter = 0
+        self._next_index = 0
+        self._ready_indexes: Set[int] = set()
         self.writer_starting_chunk_index: int = writer_starting_chunk_index
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
@@ -551,7 +553,7 @@ class BaseWorker:
         num_downloader_finished = 0
 
         while True:
-            index = self.ready_to_process_queue.get()
+            index = self._get_next_index()
 
             if index is None:
                 num_downloader_finished += 1
@@ -601,6 +603,18 @@ class BaseWorker:
             except Empty:
                 pass
 
+    def _get_next_index(self) -> Optional[int]:
+        """Returns the indexes in order, whichever of the downloaders is faster, or None when a downloader is done."""
+        while self._next_index not in self._ready_indexes:
+            index = self.ready_to_process_queue.get()
+            if index is None:
+                return None
+            self._ready_indexes.add(index)
+
+        self._ready_indexes.remove(self._next_index)
+        self._next_index += 1
+        return self._next_index - 1
+
     def _set_environ_variables(self) -> None:
         # set the optimizer global rank and world_size
         os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(_get_node_rank() * self.num_workers + self.worker_index)
-- 
2.43.0


From ea6bf5fc7b37f46a6076620f3eba28f1920cf5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 31/68] fix: use the weights given to optimize

---
 src/litdata/processing/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index cac29eb..46387cf 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -494,6 +494,7 @@ def optimize(
             num_downloaders=num_downloaders,
             num_uploaders=num_uploaders,
             reorder_files=reorder_files,
+            weights=weights,
             reader=reader,
             state_dict=state_dict,
             use_checkpoint=use_checkpoint,
-- 
2.43.0


From 1cf06ef73bd73207d91ff0f2cd19cdebd61f3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 32/68] fix: raise when the workers ended without finishing
 their work

---
 src/litdata/processing/data_processor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 92492c0..f6d33fa 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1224,6 +1224,8 @@ class DataProcessor:
         total_num_items = len(user_items)
 
         while True:
+            # Whatever a worker has sent is in the queues by the time it is over.
+            workers_are_over = all(not w.is_alive() for w in self.workers)
             try:
                 error = self.error_queue.get(timeout=0.001)
                 self._exit_on_error(error)
@@ -1232,6 +1234,9 @@ class DataProcessor:
                 try:
                     index, counter = self.progress_queue.get(timeout=0.001)
                 except Empty:
+                    if workers_are_over:
+                        exitcodes = [w.exitcode for w in self.workers]
+                        self._exit_on_error(f"The workers ended before they were done. Exit codes: {exitcodes}")
                     continue
                 self.workers_tracker[index] = counter
                 new_total = sum(self.workers_tracker.values())
-- 
2.43.0


From d8a8daf855133ad5e5d408890de65ebcc446a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 33/68] fix: resume from the checkpoints of inputs which JSON
 alters, such as tuples

---
 src/litdata/processing/data_processor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index f6d33fa..6c8114c 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1455,7 +1455,8 @@ class DataProcessor:
                     "The number of workers in the checkpoints doesn't match the current number of workers."
                 )
 
-            if config["workers_user_items"] != workers_user_items:
+            # compare what is read from JSON, where a tuple is a list
+            if config["workers_user_items"] != json.loads(json.dumps(workers_user_items)):
                 raise ValueError("Existing checkpoints are not compatible with the current configuration.")
 
             checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
@@ -1499,7 +1500,8 @@ class DataProcessor:
                     "The number of workers in the checkpoints doesn't match the current number of workers."
                 )
 
-            if config["workers_user_items"] != workers_user_items:
+            # compare what is read from JSON, where a tuple is a list
+            if config["workers_user_items"] != json.loads(json.dumps(workers_user_items)):
                 raise ValueError("Existing checkpoints are not compatible with the current configuration.")
 
             checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
-- 
2.43.0


From fdd94d56293987599c83383ee9903390928310f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 34/68] fix: upload a checkpoint after the chunks it lists

---
 src/litdata/processing/data_processor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 6c8114c..2ae734d 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -660,7 +660,9 @@ class BaseWorker:
         else:
             assert os.path.exists(data[-1]), data
 
-        self.to_upload_queues[self._counter % self.num_uploaders].put(data)
+        # A checkpoint has to be uploaded after the chunks it lists, so by the same uploader.
+        uploader_index = 0 if self.use_checkpoint else self._counter % self.num_uploaders
+        self.to_upload_queues[uploader_index].put(data)
 
     def _collect_paths(self) -> None:
         if self.no_downloaders:
@@ -803,7 +805,7 @@ class BaseWorker:
         if chunks_filepaths and len(self.to_upload_queues):
             for i, chunk_filepath in enumerate(chunks_filepaths):
                 if isinstance(chunk_filepath, str) and os.path.exists(chunk_filepath):
-                    self.to_upload_queues[i % self.num_uploaders].put(chunk_filepath)
+                    self.to_upload_queues[0 if self.use_checkpoint else i % self.num_uploaders].put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
             checkpoint_filepath = self.cache.save_checkpoint()
-- 
2.43.0


From 0b77392cf84336c3a0f8dcd467ca90fbbc9d882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 35/68] fix: write the checkpoints atomically

---
 src/litdata/processing/data_processor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 2ae734d..72ca319 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -284,7 +284,12 @@ def _upload_fn(
             output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
-            shutil.copy(local_filepath, output_filepath)
+            if local_filepath.__contains__(".checkpoints"):
+                # replace the previous checkpoint at once, for a crash not to leave half of a checkpoint
+                shutil.copy(local_filepath, f"{output_filepath}.tmp")
+                os.replace(f"{output_filepath}.tmp", output_filepath)
+            else:
+                shutil.copy(local_filepath, output_filepath)
         else:
             raise ValueError(f"The provided {output_dir.path} isn't supported.")
 
@@ -1404,8 +1409,10 @@ class DataProcessor:
                 if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints")):
                     os.makedirs(os.path.join(self.output_dir.path, ".checkpoints"))
 
-                with open(os.path.join(self.output_dir.path, ".checkpoints", "config.json"), "w") as f:
+                config_filepath = os.path.join(self.output_dir.path, ".checkpoints", "config.json")
+                with open(f"{config_filepath}.tmp", "w") as f:
                     json.dump(config, f)
+                os.replace(f"{config_filepath}.tmp", config_filepath)
 
                 return
 
-- 
2.43.0


From 473912b0e142820518c0562a3adf2ca5c9687f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 36/68] fix: resume after the right input when some of them
 have no sample

---
 src/litdata/processing/data_processor.py | 22 ++++++++++++++++++----
 src/litdata/streaming/cache.py           |  6 ++++--
 src/litdata/streaming/writer.py          | 15 ++++++++++++---
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 72ca319..d0d4c45 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -509,6 +509,8 @@ class BaseWorker:
         self._counter = 0
         self._last_time = time()
         self._index_counter = 0
+        self._sample_to_input_index: List[int] = []
+        self._num_checkpoint_samples = 0
         self._next_index = 0
         self._ready_indexes: Set[int] = set()
         self.writer_starting_chunk_index: int = writer_starting_chunk_index
@@ -654,6 +656,7 @@ class BaseWorker:
             assert isinstance(self.checkpoint_chunks_info, list)
 
             self.cache._writer._chunks_info = self.checkpoint_chunks_info
+            self._num_checkpoint_samples = sum(chunk["chunk_size"] for chunk in self.checkpoint_chunks_info)
             self.cache._writer._chunk_index += self.checkpoint_next_index
 
     def _try_upload(self, data: Optional[Union[str, Tuple[str, str]]]) -> None:
@@ -795,8 +798,8 @@ class BaseWorker:
                 self._try_upload(chunk_filepath)
                 self._index_counter += 1
                 if self.use_checkpoint:
-                    checkpoint_filepath = self.cache.save_checkpoint()
-                    self._try_upload(checkpoint_filepath)
+                    self._sample_to_input_index.append(index)
+                    self._save_checkpoint()
         except Exception as e:
             raise RuntimeError(f"Failed processing {self.items[index]=}; {index=}") from e
 
@@ -813,8 +816,19 @@ class BaseWorker:
                     self.to_upload_queues[0 if self.use_checkpoint else i % self.num_uploaders].put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
-            checkpoint_filepath = self.cache.save_checkpoint()
-            self._try_upload(checkpoint_filepath)
+            self._save_checkpoint()
+
+    def _save_checkpoint(self) -> None:
+        """Save and upload the chunks written so far with the number of inputs they were made from.
+
+        Some of the inputs might not have any sample.
+        """
+        done_till_index = self.checkpoint_next_index or 0
+        num_samples = sum(chunk["chunk_size"] for chunk in self.cache._writer._chunks_info)
+        num_samples -= self._num_checkpoint_samples
+        if num_samples > 0:
+            done_till_index += self._sample_to_input_index[num_samples - 1] + 1
+        self._try_upload(self.cache.save_checkpoint(done_till_index=done_till_index))
 
     def _handle_data_transform_recipe(self, index: int) -> None:
         """Used by map fn to run the user provided fn on each item of the input data.
diff --git a/src/litdata/streaming/cache.py b/src/litdata/streaming/cache.py
index d045d5d..a8b22f8 100644
--- a/src/litdata/streaming/cache.py
+++ b/src/litdata/streaming/cache.py
@@ -165,6 +165,8 @@ class Cache:
     def _get_chunk_index_from_index(self, index: int) -> Tuple[int, int]:
         return self._reader._get_chunk_index_from_index(index)
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
         """Save the current state of the writer to a checkpoint."""
-        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir)
+        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir, done_till_index=done_till_index)
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index b842c2f..bd29faa 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -550,8 +550,16 @@ class BinaryWriter:
             )
         return out
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
-        """Save the current state of the writer to a checkpoint."""
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
+        """Save the current state of the writer to a checkpoint.
+
+        Args:
+            checkpoint_dir: The folder of the checkpoints in the cache.
+            done_till_index: The number of inputs the chunks were made from, if it isn't their number of samples.
+
+        """
         checkpoint_dir = os.path.join(self._cache_dir, checkpoint_dir)
         if not os.path.exists(checkpoint_dir):
             os.makedirs(checkpoint_dir, exist_ok=True)
@@ -561,7 +569,8 @@ class BinaryWriter:
             return None
 
         unique_id = uuid.uuid4().hex
-        done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
+        if done_till_index is None:
+            done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
 
         checkpoint_filepath = os.path.join(checkpoint_dir, f"checkpoint-{self.rank}-{unique_id}.json")
 
-- 
2.43.0


From dcc2278929bf80d5439846367ff1c0fc19f46149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 37/68] fix: resume when a worker had already processed all of
 its inputs

---
 src/litdata/processing/data_processor.py | 8 ++++++++
 src/litdata/streaming/writer.py          | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index d0d4c45..7d83a52 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -479,6 +479,7 @@ class BaseWorker:
         checkpoint_next_index: Optional[int] = None,
         item_loader: Optional[BaseItemLoader] = None,
         storage_options: Dict[str, Any] = {},
+        checkpoint_config: Optional[Dict[str, Any]] = None,
     ) -> None:
         """The BaseWorker is responsible to process the user data."""
         self.worker_index = worker_index
@@ -517,6 +518,7 @@ class BaseWorker:
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
         self.checkpoint_next_index: Optional[int] = checkpoint_next_index
+        self.checkpoint_config: Optional[Dict[str, Any]] = checkpoint_config
         self.storage_options = storage_options
 
     def run(self) -> None:
@@ -656,6 +658,7 @@ class BaseWorker:
             assert isinstance(self.checkpoint_chunks_info, list)
 
             self.cache._writer._chunks_info = self.checkpoint_chunks_info
+            self.cache._writer._checkpoint_config = self.checkpoint_config
             self._num_checkpoint_samples = sum(chunk["chunk_size"] for chunk in self.checkpoint_chunks_info)
             self.cache._writer._chunk_index += self.checkpoint_next_index
 
@@ -1115,6 +1118,7 @@ class DataProcessor:
         self.use_checkpoint = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[List[Dict[str, Any]]]] = None
         self.checkpoint_next_index: Optional[List[int]] = None
+        self.checkpoint_configs: Optional[List[Optional[Dict[str, Any]]]] = None
         self.item_loader = item_loader
         self.storage_options = storage_options
 
@@ -1347,6 +1351,7 @@ class DataProcessor:
                 self.checkpoint_next_index[worker_idx] if self.checkpoint_next_index else None,
                 self.item_loader,
                 self.storage_options,
+                self.checkpoint_configs[worker_idx] if self.checkpoint_configs else None,
             )
             worker.start()
             workers.append(worker)
@@ -1459,6 +1464,7 @@ class DataProcessor:
 
         self.checkpoint_chunks_info = [default_chunk_info for _ in range(self.num_workers)]
         self.checkpoint_next_index = [0 for _ in range(self.num_workers)]
+        self.checkpoint_configs = [None for _ in range(self.num_workers)]
 
         if self.output_dir.url is None:
             assert self.output_dir.path
@@ -1493,6 +1499,7 @@ class DataProcessor:
                     checkpoint = json.load(f)
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
+                self.checkpoint_configs[i] = checkpoint["config"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
             return
 
@@ -1538,6 +1545,7 @@ class DataProcessor:
                     checkpoint = json.load(f)
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
+                self.checkpoint_configs[i] = checkpoint["config"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
         return
 
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index bd29faa..c7ec8ca 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -108,6 +108,7 @@ class BinaryWriter:
         self._min_index: Optional[int] = None
         self._max_index: Optional[int] = None
         self._chunks_info: List[Dict[str, Any]] = []
+        self._checkpoint_config: Optional[Dict[str, Any]] = None
         self._worker_env: Optional[_WorkerEnv] = None
         self._rank: Optional[int] = None
         self._is_done = False
@@ -147,6 +148,10 @@ class BinaryWriter:
 
     def get_config(self) -> Dict[str, Any]:
         """Returns the config of the writer."""
+        if self._data_format is None and self._checkpoint_config is not None:
+            # all the chunks come from the checkpoint
+            return self._checkpoint_config
+
         return {
             "compression": self._compression,
             "chunk_size": self._chunk_size,
-- 
2.43.0


From 084720e2f0499bb18e1be41c75ac9a45e78ee7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 38/68] fix: overwriting a remote dataset no longer deletes
 those whose path starts the same

---
 src/litdata/streaming/fs_provider.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index c85ccb8..b6b0117 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -112,10 +112,10 @@ class GCPFsProvider(FsProvider):
     def delete_file_or_directory(self, path: str) -> None:
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
         bucket = self.client.bucket(bucket_name)
-        # if it's a single file, only one will match the prefix
         blobs = bucket.list_blobs(prefix=blob_path)
         for blob in blobs:
-            blob.delete()
+            if _is_file_or_within_directory(blob.name, blob_path):
+                blob.delete()
 
     def exists(self, path: str) -> bool:
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
@@ -196,7 +196,8 @@ class S3FsProvider(FsProvider):
         # Check if objects exist
         if "Contents" in objects:
             for obj in objects["Contents"]:
-                self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+                if _is_file_or_within_directory(obj["Key"], blob_path):
+                    self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
 
     def exists(self, path: str) -> bool:
         import botocore
@@ -224,6 +225,12 @@ class S3FsProvider(FsProvider):
         return not objects["KeyCount"] > 0
 
 
+def _is_file_or_within_directory(key: str, path: str) -> bool:
+    """Whether the key is the path or is within it, as opposed to another path with the same beginning."""
+    directory = path if path == "" or path.endswith("/") else f"{path}/"
+    return key == path or key.startswith(directory)
+
+
 def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tuple[str, str]:
     """Parse the remote filepath and return the bucket name and the blob path.
 
-- 
2.43.0


From 3060fb6bfb0db2a62fcd957f1624d52953b81595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 39/68] fix: list all the objects of a remote folder, not the
 first thousand

---
 src/litdata/streaming/fs_provider.py | 41 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index b6b0117..b604b75 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -157,20 +157,16 @@ class S3FsProvider(FsProvider):
         saved_file_dir = "."
 
         # List objects under the given prefix
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=remote_directory_name)
+        for key in self._list_keys(bucket_name, remote_directory_name):
+            local_filename = os.path.join(local_directory_name, key)
 
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                local_filename = os.path.join(local_directory_name, obj["Key"])
+            # Ensure parent directories exist
+            os.makedirs(os.path.dirname(local_filename), exist_ok=True)
 
-                # Ensure parent directories exist
-                os.makedirs(os.path.dirname(local_filename), exist_ok=True)
-
-                # Download each file
-                with open(local_filename, "wb") as f:
-                    self.client.client.download_fileobj(bucket_name, obj["Key"], f)
-                    saved_file_dir = os.path.dirname(local_filename)
+            # Download each file
+            with open(local_filename, "wb") as f:
+                self.client.client.download_fileobj(bucket_name, key, f)
+                saved_file_dir = os.path.dirname(local_filename)
 
         return saved_file_dir
 
@@ -191,13 +187,20 @@ class S3FsProvider(FsProvider):
         bucket_name, blob_path = get_bucket_and_path(path, "s3")
 
         # List objects under the given path
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=blob_path)
-
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                if _is_file_or_within_directory(obj["Key"], blob_path):
-                    self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+        for key in self._list_keys(bucket_name, blob_path):
+            if _is_file_or_within_directory(key, blob_path):
+                self.client.client.delete_object(Bucket=bucket_name, Key=key)
+
+    def _list_keys(self, bucket_name: str, prefix: str) -> List[str]:
+        """List the keys with the given prefix. The store returns them page by page."""
+        keys: List[str] = []
+        kwargs: Dict[str, Any] = {"Bucket": bucket_name, "Prefix": prefix}
+        while True:
+            objects = self.client.client.list_objects_v2(**kwargs)
+            keys.extend(obj["Key"] for obj in objects.get("Contents", []))
+            if not objects.get("IsTruncated"):
+                return keys
+            kwargs["ContinuationToken"] = objects["NextContinuationToken"]
 
     def exists(self, path: str) -> bool:
         import botocore
-- 
2.43.0


From fc7912ea70a07b213d6503a04c66bb819aa90642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 40/68] fix: resume from the checkpoints found in a remote
 folder

---
 src/litdata/streaming/resolver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 6233f60..75e800e 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -319,12 +319,12 @@ def _assert_dir_has_index_file(
 
     # Check the index file exists
     try:
-        fs_provider.exists(os.path.join(prefix, "index.json"))
-        has_index_file = True
+        has_index_file = fs_provider.exists(os.path.join(prefix, "index.json"))
     except Exception:
         has_index_file = False
 
-    if has_index_file and mode is None:
+    # without an index file, the folder may hold the checkpoints to resume from
+    if mode is None and (has_index_file or not use_checkpoint):
         raise RuntimeError(
             f"The provided output_dir `{output_dir.path}` already contains an optimized immutable datasets."
             "\n HINT: Did you consider changing the `output_dir` with your own versioning as a suffix?"
-- 
2.43.0


From b642cee191f91c0376291e68692b53341a1e9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 41/68] fix: raise when a file could not be uploaded

---
 src/litdata/processing/data_processor.py | 30 ++++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 7d83a52..0516e12 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -251,24 +251,21 @@ def _upload_fn(
             local_filepath = os.path.join(cache_dir, local_filepath)
 
         if obj.scheme in _SUPPORTED_PROVIDERS:
-            try:
-                output_filepath = output_dir.url
+            output_filepath = output_dir.url
 
-                if local_filepath.__contains__(".checkpoints"):
-                    output_filepath = os.path.join(output_filepath, ".checkpoints")
-                if tmpdir is None:
-                    output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
-                else:
-                    output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
+            if local_filepath.__contains__(".checkpoints"):
+                output_filepath = os.path.join(output_filepath, ".checkpoints")
+            if tmpdir is None:
+                output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
+            else:
+                output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
 
-                output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+            output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
-                fs_provider.upload_file(
-                    local_filepath,
-                    output_filepath,
-                )
-            except Exception as e:
-                print(e)
+            fs_provider.upload_file(
+                local_filepath,
+                output_filepath,
+            )
 
         elif output_dir.path:
             output_filepath = output_dir.path
@@ -581,6 +578,9 @@ class BaseWorker:
                         for uploader in self.uploaders:
                             uploader.join()
 
+                        if any(uploader.exitcode for uploader in self.uploaders):
+                            raise RuntimeError(f"Some files couldn't be uploaded to {self.output_dir}.")
+
                     if self.remove:
                         assert self.remover
                         self.remove_queue.put(None)
-- 
2.43.0


From bc328fa014cbe0c3c7b254bb50407897e12c0441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 42/68] fix: raise when a file could not be downloaded

---
 src/litdata/processing/data_processor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 0516e12..98c19e2 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -179,6 +179,16 @@ def _download_data_target(
         queue_out.put(index)
 
 
+def _download_data_target_or_report(
+    input_dir: Dir, cache_dir: str, queue_in: Queue, queue_out: Queue, *args: Any
+) -> None:
+    """Download the data, or send the error to the worker, which would wait for the files otherwise."""
+    try:
+        _download_data_target(input_dir, cache_dir, queue_in, queue_out, *args)
+    except Exception:
+        queue_out.put(traceback.format_exc())
+
+
 #
 # `_remove_target` function accepts a queue that receives the paths to delete files from the cache directory.
 #
@@ -618,6 +628,8 @@ class BaseWorker:
             index = self.ready_to_process_queue.get()
             if index is None:
                 return None
+            if isinstance(index, str):
+                raise RuntimeError(f"The files couldn't be downloaded. {index}")
             self._ready_indexes.add(index)
 
         self._ready_indexes.remove(self._next_index)
@@ -730,7 +742,7 @@ class BaseWorker:
         for _ in range(self.num_downloaders):
             to_download_queue: Queue = Queue()
             p = Process(
-                target=_download_data_target,
+                target=_download_data_target_or_report,
                 args=(
                     self.input_dir,
                     self.cache_data_dir,
-- 
2.43.0


From d70c218b355093e86ca62eb39a45bfd7134ed3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 43/68] fix: upload the files whose path contains .checkpoints
 where they belong

---
 src/litdata/processing/data_processor.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 98c19e2..615d66e 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -256,6 +256,9 @@ def _upload_fn(
         if local_filepath is None:
             return
 
+        # The files made by `map` may have any name.
+        is_checkpoint = tmpdir is None and os.path.basename(os.path.dirname(local_filepath)) == ".checkpoints"
+
         # Upload the file to the target cloud storage
         if not local_filepath.startswith(cache_dir):
             local_filepath = os.path.join(cache_dir, local_filepath)
@@ -263,14 +266,15 @@ def _upload_fn(
         if obj.scheme in _SUPPORTED_PROVIDERS:
             output_filepath = output_dir.url
 
-            if local_filepath.__contains__(".checkpoints"):
+            if is_checkpoint:
                 output_filepath = os.path.join(output_filepath, ".checkpoints")
             if tmpdir is None:
                 output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
             else:
                 output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
 
-            output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+            if is_checkpoint:
+                output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
             fs_provider.upload_file(
                 local_filepath,
@@ -280,7 +284,7 @@ def _upload_fn(
         elif output_dir.path:
             output_filepath = output_dir.path
 
-            if local_filepath.__contains__(".checkpoints"):
+            if is_checkpoint:
                 output_filepath = os.path.join(output_filepath, ".checkpoints")
 
             if tmpdir is None:
@@ -288,10 +292,11 @@ def _upload_fn(
             else:
                 output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
 
-            output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+            if is_checkpoint:
+                output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
-            if local_filepath.__contains__(".checkpoints"):
+            if is_checkpoint:
                 # replace the previous checkpoint at once, for a crash not to leave half of a checkpoint
                 shutil.copy(local_filepath, f"{output_filepath}.tmp")
                 os.replace(f"{output_filepath}.tmp", output_filepath)
-- 
2.43.0


From d8c36008515c51ae9956566a767fe98061ac48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:23 +0000
Subject: [PATCH 44/68] fix: error_when_not_empty also refuses a local folder
 which isn't empty

---
 src/litdata/streaming/resolver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 75e800e..3aae1ed 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -236,16 +236,17 @@ def _assert_dir_is_empty(
         raise ValueError("The provided output_dir isn't a `Dir` Object.")
 
     if output_dir.url is None:
-        return
-
-    obj = parse.urlparse(output_dir.url)
+        # this is a local directory
+        is_empty = not (output_dir.path and os.path.isdir(output_dir.path) and os.listdir(output_dir.path))
+    else:
+        obj = parse.urlparse(output_dir.url)
 
-    if obj.scheme not in _SUPPORTED_PROVIDERS:
-        not_supported_provider(output_dir.url)
+        if obj.scheme not in _SUPPORTED_PROVIDERS:
+            not_supported_provider(output_dir.url)
 
-    fs_provider = _get_fs_provider(output_dir.url, storage_options)
+        fs_provider = _get_fs_provider(output_dir.url, storage_options)
 
-    is_empty = fs_provider.is_empty(output_dir.url)
+        is_empty = fs_provider.is_empty(output_dir.url)
 
     # We aren't allowing to add more data
     # TODO: Add support for `append` and `overwrite`.
-- 
2.43.0


From 2ca67c740f95348c092de41365df6ace0dbb32da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 45/68] fix: refuse to merge datasets whose samples are
 structured differently

---
 src/litdata/processing/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 46387cf..31aa8a7 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -628,6 +628,11 @@ def merge_datasets(
         if input_dirs_file_content[0]["config"]["compression"] != input_dir_file_content["config"]["compression"]:  # type: ignore
             raise ValueError("Your are trying to merge datasets with different compression configuration.")
 
+        # the merged dataset has a single config: the samples of the other datasets wouldn't be readable with it
+        for key in ("data_spec", "encryption", "item_loader"):
+            if input_dirs_file_content[0]["config"].get(key) != input_dir_file_content["config"].get(key):  # type: ignore
+                raise ValueError(f"Your are trying to merge datasets with different {key}.")
+
     chunks = []
     copy_infos: List[CopyInfo] = []
     counter = 0
-- 
2.43.0


From 30834fd2d9627e41898437d61d44e8abbf428a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 46/68] fix: don't mistake a failure to read a remote index for
 its absence

---
 src/litdata/processing/utilities.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/litdata/processing/utilities.py b/src/litdata/processing/utilities.py
index 8788fd6..1065140 100644
--- a/src/litdata/processing/utilities.py
+++ b/src/litdata/processing/utilities.py
@@ -225,20 +225,21 @@ def read_index_file_content(output_dir: Dir, storage_options: Dict[str, Any] = {
 
         prefix = output_dir.url.rstrip("/") + "/"
 
-        # Check the index file exists
+        # Check the index file exists. Failing to read it doesn't mean there is none: it would then be overwritten.
+        if not fs_provider.exists(os.path.join(prefix, _INDEX_FILENAME)):
+            return None
+
+        # Create a temporary file
+        with tempfile.NamedTemporaryFile(suffix=".json", delete=False) as temp_file:
+            temp_file_name = temp_file.name
         try:
-            # Create a temporary file
-            with tempfile.NamedTemporaryFile(suffix=".json", delete=False) as temp_file:
-                temp_file_name = temp_file.name
-                fs_provider.download_file(os.path.join(prefix, _INDEX_FILENAME), temp_file_name)
+            fs_provider.download_file(os.path.join(prefix, _INDEX_FILENAME), temp_file_name)
             # Read data from the temporary file
             with open(temp_file_name) as temp_file:
-                data = json.load(temp_file)
+                return json.load(temp_file)
+        finally:
             # Delete the temporary file
             os.remove(temp_file_name)
-            return data
-        except Exception:
-            return None
 
 
 def extract_rank_and_index_from_filename(chunk_filename: str) -> Tuple[int, int]:
-- 
2.43.0


From 4c6418751ec224ad9e360cdafc257e2be4bec2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 47/68] fix: keep the part of the remote paths after a hash or
 a question mark

---
 src/litdata/streaming/fs_provider.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index b604b75..b712092 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -171,12 +171,12 @@ class S3FsProvider(FsProvider):
         return saved_file_dir
 
     def copy(self, remote_source: str, remote_destination: str) -> None:
-        input_obj = parse.urlparse(remote_source)
-        output_obj = parse.urlparse(remote_destination)
+        input_bucket_name, input_blob_path = get_bucket_and_path(remote_source, "s3")
+        output_bucket_name, output_blob_path = get_bucket_and_path(remote_destination, "s3")
         self.client.client.copy(
-            {"Bucket": input_obj.netloc, "Key": input_obj.path.lstrip("/")},
-            output_obj.netloc,
-            output_obj.path.lstrip("/"),
+            {"Bucket": input_bucket_name, "Key": input_blob_path},
+            output_bucket_name,
+            output_blob_path,
         )
 
     def list_directory(self, path: str) -> List[str]:
@@ -217,12 +217,12 @@ class S3FsProvider(FsProvider):
             raise e
 
     def is_empty(self, path: str) -> bool:
-        obj = parse.urlparse(path)
+        bucket_name, blob_path = get_bucket_and_path(path, "s3")
 
         objects = self.client.client.list_objects_v2(
-            Bucket=obj.netloc,
+            Bucket=bucket_name,
             Delimiter="/",
-            Prefix=obj.path.lstrip("/").rstrip("/") + "/",
+            Prefix=blob_path.lstrip("/").rstrip("/") + "/",
         )
 
         return not objects["KeyCount"] > 0
@@ -255,7 +255,8 @@ def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tu
         )
 
     bucket_name = obj.netloc
-    blob_path = obj.path
+    # obj.path would lack what follows a "#" or a "?"
+    blob_path = remote_filepath[remote_filepath.index("://") + len("://") + len(bucket_name) :]
     # Remove the leading "/":
     if blob_path[0] == "/":
         blob_path = blob_path[1:]
-- 
2.43.0


From 9b5e4eb0450f565d655d14b35ea5ece00cf770ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 48/68] fix: give every block of tokens its own memory

---
 src/litdata/streaming/item_loader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 76b3980..9c54e76 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -527,12 +527,15 @@ class TokensLoader(BaseItemLoader):
         # while creating the memory map.
         offset = self._dtype.itemsize * (index - begin) * self._block_size
 
+        # Note: the block is copied, as it outlives the memory map, which is closed when its chunk isn't needed anymore.
         if self._serializer_name == "no_header_tensor":
             # count: number of tokens to read from buffer => `self._block_size`
-            data = torch.frombuffer(buffer, dtype=self._dtype, count=self._block_size, offset=offset)
+            data = torch.frombuffer(buffer, dtype=self._dtype, count=self._block_size, offset=offset).clone()
         else:
             # count: number of tokens to read from buffer => `self._block_size`
-            data = np.frombuffer(buffer, dtype=self._dtype, count=self._block_size, offset=offset)  # type: ignore
+            data = np.frombuffer(  # type: ignore
+                buffer, dtype=self._dtype, count=self._block_size, offset=offset
+            ).copy()
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "E"})
-- 
2.43.0


From 2549f9b8e1e3aa7c7b2e3ccbaf3ceef0d00b953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 49/68] fix: write the chunks of tokens which have an empty
 item

---
 src/litdata/streaming/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index c7ec8ca..c3b57d2 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -296,7 +296,7 @@ class BinaryWriter:
             assert num_items.item() <= self._chunk_size
 
         dim: Optional[int] = None
-        if items[0].dim:
+        if items[0].dim is not None:
             dim = sum([item.dim if item.dim is not None else 0 for item in items])
 
         chunk_info = {
@@ -397,7 +397,7 @@ class BinaryWriter:
         index = self._max_index
         while True:
             item = self._serialized_items.get(index, None)
-            if item:
+            if item is not None:
                 num_bytes += item.bytes
                 num_items += item.dim if item.dim else 1
                 index += 1
-- 
2.43.0


From 36443f714a142fc5318a1e6027f284ae1df8fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 50/68] fix: refuse the items and the encryption which
 TokensLoader can't read

---
 src/litdata/streaming/item_loader.py | 5 +++++
 src/litdata/streaming/writer.py      | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 9c54e76..8658f01 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -424,6 +424,9 @@ class TokensLoader(BaseItemLoader):
     ) -> None:
         super().setup(config, chunks, serializers, region_of_interest)
 
+        if config.get("encryption"):
+            raise ValueError("The `TokensLoader` doesn't support encryption.")
+
         serializer_name, dtype_index = self._data_format[0].split(":")
         if serializer_name not in ["no_header_numpy", "no_header_tensor"]:
             raise ValueError("The provided data format isn't supported.")
@@ -606,6 +609,8 @@ class TokensLoader(BaseItemLoader):
             - bytes: The raw byte representation of tokenized data.
             - dimension: The number of tokens in the data (extracted from `flattened[0].shape[0]`).
         """
+        if len(flattened) != 1 or getattr(flattened[0], "ndim", None) != 1:
+            raise ValueError("The `TokensLoader` supports only items made of a single 1D tensor or array.")
         return data[0], flattened[0].shape[0]
 
 
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index c3b57d2..12b8340 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -25,7 +25,7 @@ import numpy as np
 from litdata.constants import _INDEX_FILENAME, _POLARS_AVAILABLE, _TQDM_AVAILABLE
 from litdata.processing.utilities import get_worker_rank
 from litdata.streaming.compression import _COMPRESSORS, Compressor
-from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader
+from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader, TokensLoader
 from litdata.streaming.serializers import Serializer, _get_serializers
 from litdata.utilities._pytree import PyTree, _is_leaf, tree_flatten, treespec_dumps
 from litdata.utilities.encryption import Encryption, EncryptionLevel
@@ -89,6 +89,8 @@ class BinaryWriter:
         self._compression = compression
         self._encryption = encryption
         self._item_loader = item_loader or PyTreeLoader()
+        if encryption is not None and isinstance(self._item_loader, TokensLoader):
+            raise ValueError("The `TokensLoader` doesn't support encryption.")
 
         self._data_format: Optional[List[str]] = None
         self._data_spec: Optional[PyTree] = None
-- 
2.43.0


From 7f24376bd1433c5333b931dd2cf800a7e16b5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 51/68] fix: a chunk may be closed and deleted by two threads
 at the same time

---
 src/litdata/streaming/item_loader.py | 48 ++++++++++++----------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 8658f01..26b5ccf 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -469,8 +469,9 @@ class TokensLoader(BaseItemLoader):
         # for more details on the chunk's binary format, see `writer.py::_create_chunk`
         offset = (1 + chunk["chunk_size"] + 1) * 4
         mmap = np.memmap(chunk_filepath, mode="r", order="C", offset=offset)
-        self._mmaps[chunk_index] = mmap
+        # the buffer comes first, as another thread takes the chunk as loaded as soon as its memory map is there
         self._buffers[chunk_index] = memoryview(mmap)  # type: ignore
+        self._mmaps[chunk_index] = mmap
 
     def pre_load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
         # This is called within the prepare chunks thread, so we overlap data loading with data reading.
@@ -556,13 +557,13 @@ class TokensLoader(BaseItemLoader):
             )
         )
         if os.path.exists(chunk_filepath):
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
+            # Note: the reader may be closing the chunk at the same time
+            self._buffers.pop(chunk_index, None)
+            mmap = self._mmaps.pop(chunk_index, None)
+            if mmap is not None:
                 # explicitly close before deleting. Won't raise error if already closed.
-                self._mmaps[chunk_index]._mmap.close()
-                del self._mmaps[chunk_index]
-                del self._counter[chunk_index]
+                mmap._mmap.close()
+                self._counter.pop(chunk_index, None)
             with suppress(FileNotFoundError):  # another worker may have deleted it
                 os.remove(chunk_filepath)
         logger.debug(
@@ -580,11 +581,11 @@ class TokensLoader(BaseItemLoader):
         self._counter[chunk_index] -= 1
 
         if self._counter[chunk_index] == 0:
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
-                self._mmaps[chunk_index]._mmap.close()
-                del self._mmaps[chunk_index]
+            # Note: the prepare chunks thread may be deleting the chunk at the same time
+            self._buffers.pop(chunk_index, None)
+            mmap = self._mmaps.pop(chunk_index, None)
+            if mmap is not None:
+                mmap._mmap.close()
 
     @classmethod
     def encode_data(cls, data: List[bytes], _: List[int], flattened: List[Any]) -> Tuple[bytes, Optional[int]]:
@@ -805,13 +806,10 @@ class ParquetLoader(BaseItemLoader):
                 }
             )
         )
-        if chunk_index in self._df:
-            del self._df[chunk_index]
-        if chunk_index in self._chunk_row_groups:
-            del self._chunk_row_groups[chunk_index]
-
-        if chunk_index in self._chunk_row_group_item_read_count:
-            del self._chunk_row_group_item_read_count[chunk_index]
+        # Note: the reader may be closing the chunk at the same time
+        self._df.pop(chunk_index, None)
+        self._chunk_row_groups.pop(chunk_index, None)
+        self._chunk_row_group_item_read_count.pop(chunk_index, None)
         if os.path.exists(chunk_filepath):
             with suppress(FileNotFoundError):  # another worker may have deleted it
                 os.remove(chunk_filepath)
@@ -827,14 +825,10 @@ class ParquetLoader(BaseItemLoader):
 
     def close(self, chunk_index: int) -> None:
         """Release the memory-mapped file for a specific chunk index."""
-        if chunk_index in self._df:
-            del self._df[chunk_index]
-
-        if chunk_index in self._chunk_row_groups:
-            del self._chunk_row_groups[chunk_index]
-
-        if chunk_index in self._chunk_row_group_item_read_count:
-            del self._chunk_row_group_item_read_count[chunk_index]
+        # Note: the prepare chunks thread may be deleting the chunk at the same time
+        self._df.pop(chunk_index, None)
+        self._chunk_row_groups.pop(chunk_index, None)
+        self._chunk_row_group_item_read_count.pop(chunk_index, None)
 
     def encode_data(self, data: List[bytes], sizes: List[int], flattened: List[Any]) -> Any:
         pass
-- 
2.43.0


From 984af3d7615d163aa4685020eb159fb5fd6cd938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 52/68] fix: don't stall on every chunk when a single one is
 downloaded ahead

---
 src/litdata/streaming/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index f666638..6bdd817 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -60,7 +60,8 @@ class PrepareChunksThread(Thread):
         super().__init__(daemon=True)
         self._config = config
         self._item_loader = item_loader
-        self._max_pre_download = max_pre_download
+        # With a single one, the reader would wait for a chunk which waits for the reader to be done with the previous one
+        self._max_pre_download = max(2, max_pre_download)
         self._pre_download_counter = 0
         self._distributed_env = distributed_env
 
-- 
2.43.0


From 867b8bd03079f32c18933d1d69f0b39646147977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 53/68] fix: a dataset of tokens may be subsampled to nothing

---
 src/litdata/streaming/item_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 26b5ccf..d984cdd 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -437,7 +437,7 @@ class TokensLoader(BaseItemLoader):
             if serializer_name == "no_header_tensor"
             else _NUMPY_DTYPES_MAPPING[int(dtype_index)]
         )
-        if all(chunk["dim"] is None for chunk in self._chunks):
+        if len(self._chunks) > 0 and all(chunk["dim"] is None for chunk in self._chunks):
             raise ValueError("The provided chunks isn't properly setup.")
 
     def generate_intervals(self) -> List[Interval]:
-- 
2.43.0


From ea589ff95db289d3f1cfca35e586af6edbccfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 54/68] fix: index the local parquet files in the order of
 their names

---
 src/litdata/utilities/parquet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 01bfbf2..0b41a5a 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -78,7 +78,8 @@ class LocalParquetDir(ParquetDir):
             )
         super().__init__(dir_path, cache_path, storage_options, num_workers)
 
-        for _f in os.listdir(self.dir.path):
+        # sorted, as the order of the samples is the one of the files
+        for _f in sorted(os.listdir(self.dir.path)):
             if _f.endswith(".parquet"):
                 self.files.append(_f)
 
-- 
2.43.0


From be4351821f8d02b8464bb90d88106fa40efaccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 55/68] fix: read the parquet files whose row groups have
 different sizes

---
 src/litdata/streaming/item_loader.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index d984cdd..c6cf0a5 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -737,9 +737,13 @@ class ParquetLoader(BaseItemLoader):
 
         # Determine the row group and the row index within the row group
         parquet_file = self._df[chunk_index]
-        num_rows_per_row_group = parquet_file.metadata.row_group(0).num_rows
-        row_group_index = row_index // num_rows_per_row_group
-        row_index_within_group = row_index % num_rows_per_row_group
+        # the row groups of a file may have different sizes
+        row_group_index, row_index_within_group = 0, row_index
+        num_rows_in_row_group = parquet_file.metadata.row_group(0).num_rows
+        while row_index_within_group >= num_rows_in_row_group:
+            row_index_within_group -= num_rows_in_row_group
+            row_group_index += 1
+            num_rows_in_row_group = parquet_file.metadata.row_group(row_group_index).num_rows
 
         # Check if the row group is already loaded
         if chunk_index in self._chunk_row_groups and row_group_index in self._chunk_row_groups[chunk_index]:
@@ -762,7 +766,7 @@ class ParquetLoader(BaseItemLoader):
 
         # Check if the row group has been fully read and release memory if necessary
         read_count = self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-        if read_count >= num_rows_per_row_group:
+        if read_count >= num_rows_in_row_group:
             # Release memory for the fully read row group
             del self._chunk_row_groups[chunk_index][row_group_index]
             del self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-- 
2.43.0


From 5dd9d43cfd62c3c41b5fcf50240134f8c19524e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 56/68] fix: don't wait for ever for a parquet chunk which
 can't be downloaded

---
 src/litdata/streaming/item_loader.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index c6cf0a5..60c972d 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -649,6 +649,7 @@ class ParquetLoader(BaseItemLoader):
         self._data_format = self._config["data_format"]
         self._shift_idx = len(self._data_format) * 4
         self.region_of_interest = region_of_interest
+        self._force_download_queue: Optional[Queue] = None
         self._df: Dict[int, Any] = {}
         self._chunk_row_groups: Dict[int, Any] = {}
         self._chunk_row_group_item_read_count: Dict[int, Any] = {}
@@ -696,10 +697,20 @@ class ParquetLoader(BaseItemLoader):
         if chunk_filepath not in self._chunk_filepaths:
             exists = _is_chunk_available(chunk_filepath, filesize_bytes)
 
+            start_time = time()
+            requested_force_download = False
+
             while not exists:
                 sleep(0.1)
                 exists = _is_chunk_available(chunk_filepath, filesize_bytes)
 
+                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                    self.force_download(chunk_index)
+                    requested_force_download = True
+
+                if (time() - start_time) > _MAX_WAIT_TIME:
+                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+
             self._chunk_filepaths[chunk_filepath] = True
 
         # relative index of the desired row within the chunk.
-- 
2.43.0


From 7387b8c3ac12acc5aa135c4303b750594e55d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 57/68] fix: copy the datasets of tokens and parquet files
 which have been read

---
 src/litdata/streaming/item_loader.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 60c972d..ff8fccf 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -614,6 +614,16 @@ class TokensLoader(BaseItemLoader):
             raise ValueError("The `TokensLoader` supports only items made of a single 1D tensor or array.")
         return data[0], flattened[0].shape[0]
 
+    def __getstate__(self) -> Dict:
+        # the copy opens the chunks by itself
+        state = self.__dict__.copy()
+        state["_force_download_queue"] = None
+        state["_mmaps"] = {}
+        state["_buffers"] = {}
+        state["_counter"] = defaultdict(int)
+        state["_chunk_filepaths"] = {}
+        return state
+
 
 class ParquetLoader(BaseItemLoader):
     def __init__(self, pre_load_chunk: bool = False, low_memory: bool = True) -> None:
@@ -847,3 +857,13 @@ class ParquetLoader(BaseItemLoader):
 
     def encode_data(self, data: List[bytes], sizes: List[int], flattened: List[Any]) -> Any:
         pass
+
+    def __getstate__(self) -> Dict:
+        # the copy opens the chunks by itself
+        state = self.__dict__.copy()
+        state["_force_download_queue"] = None
+        state["_chunk_filepaths"] = {}
+        state["_df"] = {}
+        state["_chunk_row_groups"] = {}
+        state["_chunk_row_group_item_read_count"] = {}
+        return state
-- 
2.43.0


From 525ed872b1f39fefd74a550764b2c41604431ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 58/68] fix: pass the storage options to the cloud filesystem
 by name

---
 src/litdata/utilities/parquet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 0b41a5a..e1d991a 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -145,7 +145,7 @@ class CloudParquetDir(ParquetDir):
         for provider in _CLOUD_PROVIDER:
             if self.dir.url.startswith(provider):
                 # Initialize the cloud filesystem
-                self.fs = fsspec.filesystem(provider, *self.storage_options)
+                self.fs = fsspec.filesystem(provider, **(self.storage_options or {}))
                 print(f"using provider: {provider}")
                 break
 
-- 
2.43.0


From a293a21950a4f5e4862013e526a68a961ad05c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 59/68] fix: don't mix the resharded parquet files which have
 the same name

---
 src/litdata/processing/readers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/readers.py b/src/litdata/processing/readers.py
index a1ebdef..c6de93c 100644
--- a/src/litdata/processing/readers.py
+++ b/src/litdata/processing/readers.py
@@ -12,6 +12,7 @@
 # limitations under the License.
 
 import contextlib
+import hashlib
 import os
 from abc import ABC, abstractmethod
 from typing import Any, List
@@ -113,7 +114,13 @@ class ParquetReader(BaseReader):
             num_rows = self._get_num_rows(filepath)
 
             table = None
-            parquet_filename = os.path.basename(filepath)
+            # the files of different folders may have the same name and a file may change between two runs
+            file_id = str(filepath)
+            if os.path.exists(filepath):
+                stat = os.stat(filepath)
+                file_id = f"{os.path.abspath(filepath)}:{stat.st_size}:{stat.st_mtime_ns}"
+            file_hash = hashlib.sha256(file_id.encode()).hexdigest()[:16]
+            parquet_filename = f"{file_hash}_{os.path.basename(filepath)}"
 
             for start in _tqdm(range(0, num_rows, self.num_rows)):
                 end = min(start + self.num_rows, num_rows)
@@ -126,7 +133,10 @@ class ParquetReader(BaseReader):
                 if table is None:
                     table = pq.read_table(filepath, memory_map=True)
 
-                pq.write_table(table[start:end], chunk_filepath)
+                # a file which was being written when a run failed isn't taken for a whole one by the next run
+                tmp_filepath = f"{chunk_filepath}.{os.getpid()}.tmp"
+                pq.write_table(table[start:end], tmp_filepath)
+                os.replace(tmp_filepath, chunk_filepath)
 
         print("Finished resharding the parquet files for optimized processing.")
 
-- 
2.43.0


From 0b03ae83b4520abb67c42d1185ce4c6cbe143cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 60/68] fix: use the index given for a dataset whose folder has
 none

---
 src/litdata/streaming/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 8c656b8..fb3d261 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -313,7 +313,7 @@ class ChunksConfig:
                     raise RuntimeError(
                         f"This should not have happened. No index.json file found in cache: {cache_index_filepath}"
                     )
-            else:
+            elif not os.path.exists(cache_index_filepath):  # the index may have been given by the user
                 downloader = get_downloader(remote_dir, cache_dir, [], storage_options)
                 downloader.download_file(os.path.join(remote_dir, _INDEX_FILENAME), cache_index_filepath)
 
-- 
2.43.0


From b349cfab723ef2eea3cc29a2445bdbf1b8601251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 61/68] fix: close the chunks of tokens once they have been
 read

---
 src/litdata/streaming/item_loader.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ff8fccf..dcd8dc0 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -14,7 +14,7 @@ import functools
 import logging
 import os
 from abc import ABC, abstractmethod
-from collections import defaultdict, namedtuple
+from collections import namedtuple
 from contextlib import suppress
 from copy import deepcopy
 from io import BytesIO, FileIO
@@ -404,8 +404,6 @@ class TokensLoader(BaseItemLoader):
         self._block_size = block_size
         self._mmaps: Dict[int, np.memmap] = {}
         self._buffers: Dict[int, bytes] = {}
-        # keeps track of number of readers for each chunk (can be more than 1 if multiple workers are reading)
-        self._counter = defaultdict(int)
         self._dtype: Optional[torch.dtype] = None
         self._chunk_filepaths: Dict[str, bool] = {}
 
@@ -458,7 +456,6 @@ class TokensLoader(BaseItemLoader):
         return intervals
 
     def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
-        self._counter[chunk_index] += 1
         if chunk_index in self._mmaps:
             return
         chunk = self._chunks[chunk_index]
@@ -563,7 +560,6 @@ class TokensLoader(BaseItemLoader):
             if mmap is not None:
                 # explicitly close before deleting. Won't raise error if already closed.
                 mmap._mmap.close()
-                self._counter.pop(chunk_index, None)
             with suppress(FileNotFoundError):  # another worker may have deleted it
                 os.remove(chunk_filepath)
         logger.debug(
@@ -578,14 +574,11 @@ class TokensLoader(BaseItemLoader):
 
     def close(self, chunk_index: int) -> None:
         """Release the memory-mapped file for a specific chunk index."""
-        self._counter[chunk_index] -= 1
-
-        if self._counter[chunk_index] == 0:
-            # Note: the prepare chunks thread may be deleting the chunk at the same time
-            self._buffers.pop(chunk_index, None)
-            mmap = self._mmaps.pop(chunk_index, None)
-            if mmap is not None:
-                mmap._mmap.close()
+        # Note: the prepare chunks thread may be deleting the chunk at the same time
+        self._buffers.pop(chunk_index, None)
+        mmap = self._mmaps.pop(chunk_index, None)
+        if mmap is not None:
+            mmap._mmap.close()
 
     @classmethod
     def encode_data(cls, data: List[bytes], _: List[int], flattened: List[Any]) -> Tuple[bytes, Optional[int]]:
@@ -620,7 +613,6 @@ class TokensLoader(BaseItemLoader):
         state["_force_download_queue"] = None
         state["_mmaps"] = {}
         state["_buffers"] = {}
-        state["_counter"] = defaultdict(int)
         state["_chunk_filepaths"] = {}
         return state
 
-- 
2.43.0


From b47470adf6c365e2a94675b2ef5bd3d87a5c0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 62/68] fix: wait again for a chunk which is evicted before it
 is opened

---
 src/litdata/streaming/item_loader.py | 66 ++++++++++++----------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index dcd8dc0..fc0ebeb 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -90,6 +90,20 @@ class BaseItemLoader(ABC):
         if self._force_download_queue:
             self._force_download_queue.put(chunk_index)
 
+    def _wait_for_chunk(self, chunk_index: int, chunk_filepath: str, filesize_bytes: int) -> None:
+        start_time = time()
+        requested_force_download = False
+
+        while not _is_chunk_available(chunk_filepath, filesize_bytes):
+            sleep(0.1)
+
+            if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                self.force_download(chunk_index)
+                requested_force_download = True
+
+            if (time() - start_time) > _MAX_WAIT_TIME:
+                raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+
     @functools.lru_cache(maxsize=128)
     def _data_format_to_key(self, data_format: str) -> str:
         if ":" in data_format:
@@ -496,25 +510,15 @@ class TokensLoader(BaseItemLoader):
         )
 
         if chunk_filepath not in self._chunk_filepaths:
-            exists = _is_chunk_available(chunk_filepath, filesize_bytes)
-
-            start_time = time()
-            requested_force_download = False
-
-            while not exists:
-                sleep(0.1)
-                exists = _is_chunk_available(chunk_filepath, filesize_bytes)
-
-                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
-                    self.force_download(chunk_index)
-                    requested_force_download = True
-
-                if (time() - start_time) > _MAX_WAIT_TIME:
-                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
-
+            self._wait_for_chunk(chunk_index, chunk_filepath, filesize_bytes)
             self._chunk_filepaths[chunk_filepath] = True
 
-        self._load_chunk(chunk_index, chunk_filepath)
+        try:
+            self._load_chunk(chunk_index, chunk_filepath)
+        except FileNotFoundError:
+            # the chunk was deleted in the background after it was found, so wait for it to be downloaded again
+            self._wait_for_chunk(chunk_index, chunk_filepath, filesize_bytes)
+            self._load_chunk(chunk_index, chunk_filepath)
         assert self._dtype
 
         buffer: bytes = self._buffers[chunk_index]
@@ -697,30 +701,18 @@ class ParquetLoader(BaseItemLoader):
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
         if chunk_filepath not in self._chunk_filepaths:
-            exists = _is_chunk_available(chunk_filepath, filesize_bytes)
-
-            start_time = time()
-            requested_force_download = False
-
-            while not exists:
-                sleep(0.1)
-                exists = _is_chunk_available(chunk_filepath, filesize_bytes)
-
-                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
-                    self.force_download(chunk_index)
-                    requested_force_download = True
-
-                if (time() - start_time) > _MAX_WAIT_TIME:
-                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
-
+            self._wait_for_chunk(chunk_index, chunk_filepath, filesize_bytes)
             self._chunk_filepaths[chunk_filepath] = True
 
         # relative index of the desired row within the chunk.
         relative_index = index - begin
-        if self._low_memory:
-            item_data = self._get_item_with_low_memory(chunk_index, chunk_filepath, relative_index)
-        else:
-            item_data = self._get_item(chunk_index, chunk_filepath, relative_index)
+        get_item = self._get_item_with_low_memory if self._low_memory else self._get_item
+        try:
+            item_data = get_item(chunk_index, chunk_filepath, relative_index)
+        except FileNotFoundError:
+            # the chunk was deleted in the background after it was found, so wait for it to be downloaded again
+            self._wait_for_chunk(chunk_index, chunk_filepath, filesize_bytes)
+            item_data = get_item(chunk_index, chunk_filepath, relative_index)
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "E"})
-- 
2.43.0


From 14f42818e0ff412e3eb0f6c22f7664592fd695e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 63/68] fix: read the encrypted chunks through the file already
 open

---
 src/litdata/streaming/item_loader.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index fc0ebeb..8737a39 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -235,7 +235,7 @@ class PyTreeLoader(BaseItemLoader):
             self._open_handle = open_handle
 
         if self._config.get("encryption"):
-            data = self._load_encrypted_data(chunk_filepath, chunk_index, offset, encryption)
+            data = self._load_encrypted_data(chunk_index, offset, encryption)
         else:
             assert self._open_handle
             # load the data from raw bytes using the offset for the item we want to load
@@ -253,9 +253,7 @@ class PyTreeLoader(BaseItemLoader):
 
         return item_data
 
-    def _load_encrypted_data(
-        self, chunk_filepath: str, chunk_index: int, offset: int, encryption: Optional[Encryption]
-    ) -> bytes:
+    def _load_encrypted_data(self, chunk_index: int, offset: int, encryption: Optional[Encryption]) -> bytes:
         """Load and decrypt data from chunk based on the encryption configuration."""
         # Validate the provided encryption object against the expected configuration.
         self._validate_encryption(encryption)
@@ -264,19 +262,20 @@ class PyTreeLoader(BaseItemLoader):
         if self._config["encryption"]["level"] == EncryptionLevel.CHUNK:
             decrypted_data = self._decrypted_chunks.get(chunk_index, None)
             if decrypted_data is None:
-                with open(chunk_filepath, "rb", 0) as fp:
-                    encrypted_data = fp.read()
-                    decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
-                    # Store the decrypted chunk to avoid re-decryption,
-                    # also allows to free the previous chunk from the memory
-                    self._decrypted_chunks = {chunk_index: decrypted_data}
+                assert self._open_handle
+                self._open_handle.seek(0)
+                encrypted_data = self._open_handle.readall()
+                decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
+                # Store the decrypted chunk to avoid re-decryption,
+                # also allows to free the previous chunk from the memory
+                self._decrypted_chunks = {chunk_index: decrypted_data}
             data = self._load_data(BytesIO(decrypted_data), offset)
 
         # sample-level decryption
         elif self._config["encryption"]["level"] == EncryptionLevel.SAMPLE:
-            with open(chunk_filepath, "rb", 0) as fp:
-                data = self._load_data(fp, offset)
-                data = encryption.decrypt(data)  # type: ignore
+            assert self._open_handle
+            data = self._load_data(self._open_handle, offset)
+            data = encryption.decrypt(data)  # type: ignore
 
         else:
             raise ValueError("Invalid encryption level.")
-- 
2.43.0


From 80334d71c2a05fd75d3e73e2aee829a4ba45c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 64/68] fix: don't count twice the chunks which are downloaded
 again

---
 src/litdata/streaming/reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 6bdd817..e2438c1 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -239,8 +239,7 @@ class PrepareChunksThread(Thread):
             if self._pre_download_counter > 0:
                 self._pre_load_chunk(chunk_index)
 
-            # Avoid downloading too many chunks in advance at the risk of over using the disk space
-            self._pre_download_counter += 1
+            # Note: the chunk is counted once only, when it comes from the download queue
 
     def run(self) -> None:
         while True:
-- 
2.43.0


From 7b4d500945b4e252994d7f4b6bbf5c3e9b9ab0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 65/68] fix: don't delete a chunk whose file is in use as
 another chunk

---
 src/litdata/streaming/reader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index e2438c1..4099aa5 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -162,6 +162,16 @@ class PrepareChunksThread(Thread):
         chunk_filepath, _, _ = self._config[ChunkedIndex(index=-1, chunk_index=chunk_index)]
 
         remaining_locks = self._remaining_locks(chunk_filepath)
+        # The same file can be several chunks of a subsampled dataset. The last one of them deletes it.
+        with self._in_use_lock:
+            in_use = any(
+                self._config[ChunkedIndex(index=-1, chunk_index=i)][0] == chunk_filepath
+                for i in self._in_use
+                if i != chunk_index
+            )
+        if in_use:
+            return
+
         if remaining_locks > 0:  # Can't delete this, something has it
             if _DEBUG:
                 print(f"Skip delete {chunk_filepath} by {self._rank or 0}, current lock count: {remaining_locks}")
-- 
2.43.0


From c2be9f784471e1ba33bee43ca4a40f7d2daef3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 66/68] fix: download the files of Azure atomically

---
 src/litdata/streaming/downloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 3f10499..79925aa 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -222,9 +222,12 @@ class AzureDownloader(Downloader):
 
             service = BlobServiceClient(**self._storage_options)
             blob_client = service.get_blob_client(container=obj.netloc, blob=obj.path.lstrip("/"))
-            with open(local_filepath, "wb") as download_file:
+            # make an atomic operation to be safe
+            temp_file_path = local_filepath + ".tmp"
+            with open(temp_file_path, "wb") as download_file:
                 blob_data = blob_client.download_blob()
                 blob_data.readinto(download_file)
+            os.rename(temp_file_path, local_filepath)
 
 
 class LocalDownloader(Downloader):
-- 
2.43.0


From d053855bba599a3b3c6732ecf02512f997e9da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 67/68] fix: don't take what an interrupted download from
 Google left for the file

---
 src/litdata/streaming/downloader.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 79925aa..b80d242 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -171,13 +171,16 @@ class GCPDownloader(Downloader):
         if obj.scheme != "gs":
             raise ValueError(f"Expected obj.scheme to be `gs`, instead, got {obj.scheme} for remote={remote_filepath}")
 
-        if os.path.exists(local_filepath):
+        # The client writes under the final name. This file exists until it is done.
+        partial_filepath = local_filepath + ".part"
+
+        if os.path.exists(local_filepath) and not os.path.exists(partial_filepath):
             return
 
         with suppress(Timeout), FileLock(
             local_filepath + ".lock", timeout=1 if obj.path.endswith(_INDEX_FILENAME) else 0
         ):
-            if os.path.exists(local_filepath):
+            if os.path.exists(local_filepath) and not os.path.exists(partial_filepath):
                 return
 
             bucket_name = obj.netloc
@@ -189,7 +192,16 @@ class GCPDownloader(Downloader):
             client = storage.Client(**self._storage_options)
             bucket = client.bucket(bucket_name)
             blob = bucket.blob(key)
-            blob.download_to_filename(local_filepath)
+            with open(partial_filepath, "w"):
+                pass
+            try:
+                blob.download_to_filename(local_filepath)
+            except BaseException:
+                with suppress(FileNotFoundError):
+                    os.remove(local_filepath)
+                os.remove(partial_filepath)
+                raise
+            os.remove(partial_filepath)
 
 
 class AzureDownloader(Downloader):
-- 
2.43.0


From 8cb6f3f36f9be726002f1795f975908b25263d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 68/68] fix: don't use a chunk which is still being downloaded
 from Google

---
 src/litdata/streaming/config.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index fb3d261..f9f08e0 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -129,7 +129,7 @@ class ChunksConfig:
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
 
-        if os.path.exists(local_chunkpath) or os.path.exists(self._without_compression(local_chunkpath)):
+        if self._is_downloaded(local_chunkpath) or self._is_downloaded(self._without_compression(local_chunkpath)):
             self.try_decompress(local_chunkpath)
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
@@ -148,6 +148,10 @@ class ChunksConfig:
 
         self.try_decompress(local_chunkpath)
 
+    def _is_downloaded(self, chunk_filepath: str) -> bool:
+        # What is being downloaded, or was left by an interrupted download, doesn't count
+        return os.path.exists(chunk_filepath) and not os.path.exists(chunk_filepath + ".part")
+
     def _without_compression(self, chunk_filepath: str) -> str:
         dirname, filename = os.path.split(chunk_filepath)
         return os.path.join(dirname, filename.replace(f".{self._compressor_name}", ""))
@@ -161,6 +165,10 @@ class ChunksConfig:
         if os.path.exists(target_local_chunkpath):
             return
 
+        if self._downloader is not None and not self._is_downloaded(local_chunkpath):
+            # another worker is downloading the chunk, or has just decompressed it and removed the downloaded file
+            return
+
         try:
             with open(local_chunkpath, "rb") as f:
                 data = f.read()
-- 
2.43.0

