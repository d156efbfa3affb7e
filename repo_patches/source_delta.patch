From 8e7c395657b46f882f19d6bae4ed8dc612812553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 01/40] fix: InterleaveIterDataset.set_state aliases the state
 and keeps stale exhaustion marks

set_state kept a reference to the caller's iterators_in_use_indices (and
get_state handed out the live future_states), so reading on modified saved
states. It also left _exhausted_iterator_state set for slots restored as
active; the next get_state then marked them exhausted and their remaining
elements were lost on restore (also in the second epoch of repeat).
---
 grain/_src/python/dataset/transformations/interleave.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d1830f6..6fa5495 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -204,7 +204,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         "iterators_in_use_indices": self._iterators_in_use_indices.copy(),
         "iterators_in_use_states": iterators_in_use_states,
         "exhausted": exhausted,
-        "future_states": self._future_states,
+        "future_states": dict(self._future_states),
     }
     return state
 
@@ -256,6 +256,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for index_in_cycle, (index_in_datasets, it_state) in enumerate(
         zip(state["iterators_in_use_indices"], state["iterators_in_use_states"])
     ):
+      self._exhausted_iterator_state[index_in_cycle] = None
       if it_state is None:
         self._iterators_in_use[index_in_cycle] = None
       elif exhausted[index_in_cycle] == 0:
@@ -294,7 +295,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     )
     self._next_index_in_cycle = state["next_index_in_cycle"]
     self._next_index_in_datasets = state["next_index_in_datasets"]
-    self._iterators_in_use_indices = state["iterators_in_use_indices"]
+    self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
     self._future_states = cast(dict[int, Any], state.get("future_states", {}))
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
-- 
2.43.0


From 9eb92a31b3d8284244abc02ae80f1dd61a427470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 02/40] fix: interleave re-reads exhausted shards after
 set_shard_states

Exhausted shards with an index past the restored cycle (or all of them when no
shard is active) were iterated again from their start, duplicating data after
elastic resizing. future_states keys also did not survive JSON.
---
 .../dataset/transformations/interleave.py     | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 6fa5495..acb534e 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -17,7 +17,7 @@ import collections
 from collections.abc import Sequence
 import copy
 import functools
-from typing import Any, TypeVar, cast
+from typing import Any, TypeVar
 import weakref
 
 from absl import logging
@@ -141,6 +141,15 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             continue
       with timer:
         if self._next_index_in_datasets < len(self._datasets):
+          if (
+              self._next_index_in_datasets in self._future_states
+              and self._future_states[self._next_index_in_datasets] is None
+          ):
+            # This dataset was exhausted before elastic resizing.
+            next(self._prefetch_ds_iter).close()
+            del self._future_states[self._next_index_in_datasets]
+            self._next_index_in_datasets += 1
+            continue
           self._iterators_in_use[self._next_index_in_cycle] = next(
               self._prefetch_ds_iter
           )
@@ -224,7 +233,13 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       # means the current shard has not yet started to be iterated on or have a
       # future state has been saved for it.
       if i >= next_index_in_datasets:
-        if i in self._future_states:
+        if i in self._future_states and self._future_states[i] is None:
+          # Exhausted before elastic resizing.
+          shard_states[i] = {
+              "exhausted": 1,
+              "state": self._get_iterator_start_state(i),  # pylint: disable=protected-access
+          }
+        elif i in self._future_states:
           shard_states[i] = {
               "exhausted": 0,
               "state": self._future_states[i],
@@ -296,7 +311,10 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     self._next_index_in_cycle = state["next_index_in_cycle"]
     self._next_index_in_datasets = state["next_index_in_datasets"]
     self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
-    self._future_states = cast(dict[int, Any], state.get("future_states", {}))
+    # Keys become strings if the state was serialized to JSON.
+    self._future_states = {
+        int(k): v for k, v in state.get("future_states", {}).items()
+    }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
     active_states = []
@@ -318,8 +336,14 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       elif s:
         future_states[indx] = s
     next_index_in_datasets = (
-        max(iterators_in_use_indices) + 1 if iterators_in_use_indices else 0
+        max(iterators_in_use_indices) + 1
+        if iterators_in_use_indices
+        else len(shard_states)
     )
+    # Exhausted shards past the current cycle must not be read again.
+    for indx in range(next_index_in_datasets, len(shard_states)):
+      if shard_states[indx]["exhausted"]:
+        future_states[indx] = None
 
     # This is the case where the cycle length is greater than the number of
     # non-exhausted shards. We will just go back through the datasets to fill
-- 
2.43.0


From 3113fd5db725d9a47c1285508afb1c083880c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 03/40] fix: ElasticIterator.close never closes its base
 iterator

The check looked for a _base_iterator attribute; the cached property is stored
under base_iterator.
---
 grain/_src/python/dataset/elastic_iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index 5304259..c0cb2a3 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -477,7 +477,7 @@ class ElasticIterator(dataset.DatasetIterator):
 
   def close(self) -> None:
     """Closes the base iterator if it was created for backwards compatibility."""
-    if "_base_iterator" in self.__dict__:
+    if "base_iterator" in self.__dict__:
       self.base_iterator.close()
 
   def get_state(self) -> dict[str, Any]:
-- 
2.43.0


From 7215fbeeeeb8ac478605c276ad654dbe2774f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 04/40] fix: FlatMapIterDataset replays a stale buffer after
 restoring an end state

set_state to the end of the parent reset the position but kept the buffer of a
used iterator, whose elements were then produced again.
---
 grain/_src/python/dataset/transformations/flatmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 75a8ea6..00058b4 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -133,9 +133,8 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
     except StopIteration:
       # Edge case: The iterator has run out of elements.
       # We keep this EOF state.
-
+      self._buffer = []
       self._next_index_in_buffer = 0
-      pass
 
   def __str__(self) -> str:
     return f"FlatMapDatasetIterator(transform={self._transform_name})"
-- 
2.43.0


From 1bc6a38e122768480db348241739a0ae5906bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 05/40] fix: window shuffle seed overflows 32 bits

seed + window_index was not wrapped to the 32 bits index_shuffle accepts, so
seeds close to 2**32 failed with a TypeError after a few windows.
---
 grain/_src/python/dataset/transformations/shuffle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 23e56c4..2ccd9f8 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -111,7 +111,8 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
 
   def _shuffled_index(self, index: int) -> int:
     window_index, index_in_window = divmod(index, self._window_size)
-    seed = self._seed + window_index
+    # index_shuffle expects 32-bit seeds.
+    seed = (self._seed + window_index) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
         max_index=self._window_size - 1,
@@ -210,7 +211,8 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
       # End of the parent iterator, nothing else to process.
       self._parent_exhausted = True
     self._window = _reshuffle_window(
-        window=self._window, seed=self._global_seed + self._window_index
+        window=self._window,
+        seed=(self._global_seed + self._window_index) % 2**32,
     )
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From 63dec7ea6094859a234ba24e1610602fad82e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 06/40] fix: length of batch and RangeDataSource computed
 through floats

Lengths above 2**53 were rounded; repeat().batch(1) had a length above
sys.maxsize and len() raised OverflowError.
---
 grain/_src/python/data_sources.py                  | 3 +--
 grain/_src/python/dataset/transformations/batch.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/data_sources.py b/grain/_src/python/data_sources.py
index f885dae..38e3569 100644
--- a/grain/_src/python/data_sources.py
+++ b/grain/_src/python/data_sources.py
@@ -23,7 +23,6 @@ pipelines.
 
 from collections.abc import Sequence
 import inspect
-import math
 from multiprocessing import shared_memory
 import os
 import threading
@@ -113,7 +112,7 @@ class RangeDataSource:
     self._start = start
     self._stop = stop
     self._step = step
-    self._len = int(math.ceil((self._stop - self._start) / step))
+    self._len = -(-(self._stop - self._start) // step)
     assert self._len >= 0, "length can't be negative."
     _api_usage_counter.Increment("RangeDataSource")
 
diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 93169fc..bcca360 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -18,7 +18,6 @@ from __future__ import annotations
 from collections.abc import Sequence
 import concurrent.futures
 import functools
-import math
 import pprint
 import sys
 from typing import Any, Callable, Generic, Protocol, TypeVar, cast, runtime_checkable
@@ -428,7 +427,7 @@ class BatchMapDataset(dataset.MapDataset[T]):
     if self._drop_remainder:
       return len(self._parent) // self._batch_size
     else:
-      return math.ceil(len(self._parent) / self._batch_size)
+      return -(-len(self._parent) // self._batch_size)
 
   @functools.cached_property
   def _get_parent_items_fn(self):
-- 
2.43.0


From 2672831e4b00836ee5fa2c3e86dd4e5831a28c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 07/40] fix: rebatch emits an empty batch after restoring at a
 batch boundary

A state taken when the current batch was exactly consumed was restored by
re-reading it and slicing nothing out of it; if the parent then ended, an empty
batch was produced.
---
 grain/_src/python/dataset/transformations/rebatch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index e6cfb25..bbbefb9 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -146,6 +146,10 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
               "Rebatching with starting batch size of 0 is not supported."
           )
 
+        if self._batch_idx >= len(self._current_batch[0]):
+          # The restored position is the end of this batch.
+          continue
+
         if not to_concatenate:
           for _ in range(len(self._current_batch)):
             to_concatenate.append(list())
-- 
2.43.0


From d6fe49b0ff54b89e4eb5a6e1e7a7b3217b732679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 08/40] fix: concat-then-split writes BOS for empty sequences

A zero-length sequence put a BOS token on a position it does not own (or past
the end of a full buffer, which raised IndexError).
---
 .../python/dataset/transformations/packing_concat_then_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index f54e2a6..583addf 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -313,7 +313,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
               " ConcatThenSplitPackDatasetIterator."
           )
         values[start:end] = sequence
-        if replace_with_bos:
+        if replace_with_bos and sequence_length > 0:
           values[start] = self._config.bos_token_id
         if not is_meta_feature:
           assert segment_ids is not None
-- 
2.43.0


From ac8f0c2c3c35d2aa8222e6e4cbe23cbde4b3289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 09/40] fix: concat-then-split re-splits a remainder at the
 wrong offset

When a remainder is split again, a feature that fits entirely was cut at its
length instead of at start + length: its tokens were dropped from the packed
element and produced again later.
---
 .../transformations/packing_concat_then_split.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 583addf..8b12db7 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -375,17 +375,17 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
           return element
         new_tokens_in_buffer[key] = sequence_length
       else:
+        if element.slices[key] == _EMPTY_SLICE:
+          start_index = 0
+        else:
+          start_index = element.slices[key][0]
         if sequence_length > available_tokens:
           needs_splitting = True
-          if element.slices[key] == _EMPTY_SLICE:
-            start_index = 0
-          else:
-            start_index = element.slices[key][0]
           split_points[key] = start_index + available_tokens
           new_tokens_in_buffer[key] = available_tokens
         else:
           # No splitting.
-          split_points[key] = sequence_length
+          split_points[key] = start_index + sequence_length
           new_tokens_in_buffer[key] = sequence_length
 
     if needs_splitting:
-- 
2.43.0


From 9e5ef0c76b811e9dd281c68602fdc83d31585bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 10/40] fix: concat-then-split state does not survive JSON

Slices come back as lists, so an empty slice was taken for a remainder and the
next parent element was cut with [-1:-1] or lost.
---
 .../dataset/transformations/packing_concat_then_split.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 8b12db7..cf73f72 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -525,6 +525,10 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
 
   def set_state(self, state: dict[str, Any]):
     state = _CtsState(**state)
+    # Slices become lists if the state was serialized to JSON.
+    state.remainder_slices = {
+        k: tuple(v) for k, v in state.remainder_slices.items()
+    }
     # Clear internal state.
     self._packed_elements = collections.deque()
     self._remainder_element = None
-- 
2.43.0


From 12c38a6031524d739c69eb9d2e3c09a04513d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 11/40] fix: index_shuffle is not a bijection for some powers
 of two

ceil(log2(max_index)) is one bit short when max_index is a power of two, so for
max_index = 2^16, 2^18, ... the block cannot represent max_index and indices
collide. Rounding max_index to double had the same effect above 2^53.
---
 .../_src/python/experimental/index_shuffle/index_shuffle.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
index b031fe7..8d2a6f4 100644
--- a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
+++ b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
@@ -35,7 +35,6 @@ limitations under the License.
 
 #include <algorithm>
 #include <bitset>
-#include <cmath>
 #include <cstdint>
 #include <random>
 #include <vector>
@@ -115,7 +114,10 @@ uint64_t index_shuffle(const uint64_t index, const uint64_t max_index,
   // Block size must be large enough to represent max_index and even (since
   // word size is half of it). We force at least 16 bits as minimum block size
   // since we observed pattern in the permutations below.
-  int block_size = static_cast<int>(std::ceil(std::log2(max_index)));
+  int block_size = 0;
+  while (block_size < 64 && (max_index >> block_size) != 0) {
+    ++block_size;
+  }
   block_size = std::max(block_size + block_size % 2, kMinBlockSize);
   assert(block_size > 0 && block_size % 2 == 0 && block_size <= 64);
   // rounds should be in [4, 1024] and number of rounds must be even.
-- 
2.43.0


From 0be0a1cd9d560e1d016487e936231964d8be70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 12/40] fix: failing element shifts the position of the
 prefetch iterator

When a prefetched element raised, it left the buffer but the position was not
advanced: later checkpoints pointed one element back and the end of the dataset
raised IndexError('pop from an empty deque') instead of StopIteration.
---
 .../_src/python/dataset/transformations/prefetch.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 76449dd..ab7dacc 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -261,12 +261,12 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           element = self._buffer.popleft()
           # Prefetch elements until the buffer is full again.
           self._fill_buffer()
-          element = element.result()
+          element = self._get_buffered_result(element)
         else:
           # In case prefetch buffer size was decreased, we still want to consume
           # the already prefetched elements.
           if self._buffer:
-            element = self._buffer.popleft().result()
+            element = self._get_buffered_result(self._buffer.popleft())
           else:
             element = self._stats.record_bytes_consumed(
                 self._map_parent[self._next_returned_index]
@@ -281,6 +281,15 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           return self._stats.record_output_spec(element)
     raise StopIteration
 
+  def _get_buffered_result(self, future: futures.Future[T]) -> T:
+    try:
+      return future.result()
+    except Exception:
+      # The element left the buffer, so its position is consumed even if
+      # producing it failed.
+      self._next_returned_index += 1
+      raise
+
   def get_state(self):
     return {"next_index": self._next_returned_index}
 
-- 
2.43.0


From bf6cae5910de381495825dd1d011a9c3c8cf180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 13/40] fix: start_prefetch races with direct reads when
 prefetching is disabled

---
 grain/_src/python/dataset/transformations/prefetch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index ab7dacc..72ce1b4 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -615,6 +615,10 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       raise ValueError("Attempting to use a closed iterator.")
     if self._prefetch_thread is not None:
       return
+    if self._target_prefetch_buffer_size == 0:
+      # Prefetching is disabled and elements are read from the parent directly,
+      # a producer thread would race with that.
+      return
 
     self._prefetch_should_stop.clear()
 
-- 
2.43.0


From c96baf86e84e30e7e896316c6f50a7dcc59903ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 14/40] fix: best-fit packing ignores max_sequences_per_bin for
 rows of empty sequences

---
 .../dataset/transformations/packing_packed_batch.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_packed_batch.py b/grain/_src/python/dataset/transformations/packing_packed_batch.py
index 56f8ae1..a707204 100644
--- a/grain/_src/python/dataset/transformations/packing_packed_batch.py
+++ b/grain/_src/python/dataset/transformations/packing_packed_batch.py
@@ -419,13 +419,15 @@ class BestFitPackedBatch(PackedBatch[_T]):
     new_free_cells = free_cells_matrix + element_lengths[:, np.newaxis]
 
     if self._max_sequences_per_bin is not None:
-      # Invalidate bins that have reached the max sequence limit. Adding the
-      # capacity ensures they fail the subsequent length check.
+      # Invalidate bins that have reached the max sequence limit. Adding more
+      # than the capacity ensures they fail the subsequent length check, also
+      # if they only hold empty sequences.
       max_sequence_mask = np.where(
           self._num_examples_per_row < self._max_sequences_per_bin, 0, 1
       )
       new_free_cells = (
-          new_free_cells + max_sequence_mask * self._capacities[:, np.newaxis]
+          new_free_cells
+          + max_sequence_mask * (self._capacities[:, np.newaxis] + 1)
       )
     fittable_mask = np.all(
         new_free_cells <= self._capacities[:, np.newaxis], axis=0
-- 
2.43.0


From cec585c339ebf7c2b376bea62532aef8471d5bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 15/40] fix: growing a shrinking multiprocessing queue raises
 its capacity above the limit

---
 grain/_src/python/ipc/variable_size_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 1bfa7ae..80882d0 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -67,7 +67,10 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
     with self._resize_lock:
       delta = max_size - self._max_size_val.value
       if delta > 0:
-        for _ in range(delta):
+        # Slots that still wait to be removed are kept instead of adding more.
+        kept = min(delta, self._pending_shrink.value)
+        self._pending_shrink.value -= kept
+        for _ in range(delta - kept):
           self._sem.release()
         self._max_size_val.value = max_size
       elif delta < 0:
-- 
2.43.0


From 3a1a1756c276a50e43bcbf6d20821b7ca2d7274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 16/40] fix: the position of an interleaved single dataset is
 lost once it is exhausted

---
 .../dataset/transformations/interleave.py     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index acb534e..01aaf74 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -371,7 +371,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     if len(self._datasets) == 1:
       it = self._iterators_in_use[0]
       if it is None:
-        return 0
+        if self._exhausted_iterator_state[0] is None:
+          return 0
+        it = self._reopen_exhausted_iterator()
       return dataset.get_next_index(it)
     raise NotImplementedError(
         "get_next_index is not supported for InterleaveDatasetIterator with"
@@ -383,7 +385,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       # Ensure iterator is created by calling get_state.
       _ = self.get_state()
       it = self._iterators_in_use[0]
-      assert it is not None
+      if it is None:
+        it = self._reopen_exhausted_iterator()
       dataset.set_next_index(it, index)
     else:
       raise NotImplementedError(
@@ -391,6 +394,18 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
           " more than one dataset."
       )
 
+  def _reopen_exhausted_iterator(self) -> dataset.DatasetIterator[T]:
+    """Reopens the iterator of the only dataset after it was exhausted."""
+    it = _add_prefetch_and_make_iterator(
+        self._datasets[0],
+        interleave_iterator=weakref.ref(self),
+        start_prefetch=False,
+    )
+    it.set_state(self._exhausted_iterator_state[0])
+    self._iterators_in_use[0] = it
+    self._exhausted_iterator_state[0] = None
+    return it
+
   def set_keep_iterators_after_stop_iteration(
       self, keep_iterators: bool
   ) -> None:
-- 
2.43.0


From 20a469a25c50baf9d5f89b09726fee900e86126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 17/40] fix: leaves are visited in insertion order when JAX is
 not installed

---
 grain/_src/core/tree_lib.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index 75e4867..0b51bb7 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -86,6 +86,12 @@ try:
 
 except ImportError:
 
+  def _mapping_items(structure):
+    """Items in the order in which JAX visits them, see `jax.tree_util`."""
+    if isinstance(structure, collections.OrderedDict):
+      return list(structure.items())
+    return [(k, structure[k]) for k in sorted(structure)]
+
   def map_structure(f, *trees, is_leaf=None):
     """Pure Python version of `jax.tree_util.tree_map`."""
     a = trees[0]
@@ -117,7 +123,7 @@ except ImportError:
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
           itertools.chain.from_iterable(
-              flatten(v) for _, v in structure.items()
+              flatten(v) for _, v in _mapping_items(structure)
           )
       )
     else:  # leaf
@@ -135,9 +141,11 @@ except ImportError:
       else:
         return type(structure)(new_items)
     elif isinstance(structure, _MAPPING_TYPES):
-      new_items = (
-          (k, _unflatten_iter_as(v, flat_iter)) for k, v in structure.items()
-      )
+      new_values = {
+          k: _unflatten_iter_as(v, flat_iter)
+          for k, v in _mapping_items(structure)
+      }
+      new_items = [(k, new_values[k]) for k in structure]
       if isinstance(structure, collections.defaultdict):
         new_tree = type(structure)(structure.default_factory)
         new_tree.update(new_items)
@@ -199,7 +207,8 @@ except ImportError:
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
           itertools.chain.from_iterable(
-              _flatten_with_path(prefix + (k,), v) for k, v in structure.items()
+              _flatten_with_path(prefix + (k,), v)
+              for k, v in _mapping_items(structure)
           )
       )
     else:  # leaf
-- 
2.43.0


From 88e3d0ed655a36aaf77c87546007ad98a3765f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 18/40] fix: trees of different structure are accepted when JAX
 is not installed

---
 grain/_src/core/tree_lib.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index 0b51bb7..3d2d5f4 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -92,13 +92,22 @@ except ImportError:
       return list(structure.items())
     return [(k, structure[k]) for k in sorted(structure)]
 
+  def _zip_sequences(*trees):
+    for t in trees[1:]:
+      if not isinstance(t, _SEQUENCE_TYPES):
+        raise ValueError(f"Expected {type(trees[0])}, got {t}.")
+    return zip(*trees, strict=True)
+
   def map_structure(f, *trees, is_leaf=None):
     """Pure Python version of `jax.tree_util.tree_map`."""
     a = trees[0]
     if is_leaf is not None and is_leaf(a):
       return f(*trees)
     elif isinstance(a, _SEQUENCE_TYPES):
-      new_items = (map_structure(f, *v, is_leaf=is_leaf) for v in zip(*trees))
+      new_items = (
+          map_structure(f, *v, is_leaf=is_leaf)
+          for v in _zip_sequences(*trees)
+      )
       if epy.is_namedtuple(a):
         return type(a)(*new_items)
       else:
@@ -130,6 +139,12 @@ except ImportError:
       return [structure]
 
   def unflatten_as(structure, flat_sequence):
+    flat_sequence = list(flat_sequence)
+    num_leaves = len(flatten(structure))
+    if len(flat_sequence) != num_leaves:
+      raise ValueError(
+          f"Expected {num_leaves} leaves, got {len(flat_sequence)}."
+      )
     return _unflatten_iter_as(structure, iter(flat_sequence))
 
   def _unflatten_iter_as(structure, flat_iter):
@@ -163,8 +178,8 @@ except ImportError:
 
   def _assert_same_structure(a, b):
     """`assert_same_structure` recursive implementation."""
-    if isinstance(a, _ALL_TYPES):
-      if not isinstance(a, type(b)):
+    if isinstance(a, _ALL_TYPES) or isinstance(b, _ALL_TYPES):
+      if type(a) is not type(b):
         raise AssertionError(
             f"structures have different types: {type(a)} != {type(b)}"
         )
@@ -225,7 +240,7 @@ except ImportError:
     elif isinstance(a, _SEQUENCE_TYPES):
       new_items = (
           _map_structure_with_path(prefix + (i,), f, *v, is_leaf=is_leaf)
-          for i, v in enumerate(zip(*trees))
+          for i, v in enumerate(_zip_sequences(*trees))
       )
       if epy.is_namedtuple(a):
         return type(a)(*new_items)
-- 
2.43.0


From 297686d3744673891cb71c0beb662b61341fe5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 19/40] fix: cache resumes at a wrong element from a state
 saved right after restoring a completed pass

---
 grain/_src/python/dataset/transformations/cache.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index 829dc51..f0582a0 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -56,6 +56,9 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
     self._position = 0
     self._cache_filled = False
     self._rebuild_cache = False
+    # Whether the last restored parent state is not usable and the cache has not
+    # been rebuilt since.
+    self._parent_state_unusable = False
     self._starting_state = parent_iter.get_state()
 
   @stats.record_next_duration_if_output
@@ -74,6 +77,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
         self._parent.set_state(self._starting_state)
         self._cache = []
         self._rebuild_cache = False
+        self._parent_state_unusable = False
       for _ in range(self._position):
         val = next(self._parent)
         with timer:
@@ -93,11 +97,14 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
     return {
         "parent": self._parent.get_state(),
         "position": self._position,
-        "cache_filled": self._cache_filled,
+        "cache_filled": self._cache_filled or self._parent_state_unusable,
     }
 
   def set_state(self, state: dict[str, Any]):
-    if state["cache_filled"] and not self._cache_filled:
+    self._parent_state_unusable = (
+        state["cache_filled"] and not self._cache_filled
+    )
+    if self._parent_state_unusable:
       # If the state is from an iterator whose cache was filled, the parent
       # state will not be usable. We will rebuild the cache from scratch.
       self._rebuild_cache = True
-- 
2.43.0


From 213f262173a6d3ca5193c3115293f2192210245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 20/40] fix: shared memory array views and copies cross
 processes with wrong contents

copy_to_shm and pickling describe a SharedMemoryArray by the name of its shared
memory, its shape and its dtype. This is wrong for views that don't start at the
beginning of the memory or have gaps (the receiver silently gets other values)
and fails for copies, which have no shared memory. Treat both like ordinary
arrays.
---
 grain/_src/python/ipc/shared_memory_array.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8dab940..fde5ce2 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -117,7 +117,20 @@ class SharedMemoryArray(np.ndarray):
     obj._unlink_on_del = False
     return obj
 
+  def _is_shm_prefix(self) -> bool:
+    """Whether the shared memory, shape and dtype fully describe this array.
+
+    It is not the case for copies, which live in ordinary memory, and for views
+    that don't start at the beginning of the shared memory or have gaps.
+    """
+    if self.shm is None or not self.flags.c_contiguous:
+      return False
+    shm_start = np.frombuffer(self.shm.buf, dtype=np.uint8, count=1)
+    return self.ctypes.data == shm_start.ctypes.data
+
   def __reduce_ex__(self, protocol):
+    if not self._is_shm_prefix():
+      return np.asarray(self).__reduce_ex__(protocol)
     # For out-of-band pickling we don't need a PickleBuffer because the
     # `SharedMemory` class automatically pickles itself using only its name
     return self.from_shared_memory, (self.shm, self.shape, self.dtype)
@@ -190,7 +203,9 @@ class SharedMemoryArray(np.ndarray):
 def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
   """Copies `leaf` to shared memory if it's a big enough numpy array."""
   if isinstance(leaf, SharedMemoryArray):
-    return leaf.metadata
+    if leaf._is_shm_prefix():  # pylint: disable=protected-access
+      return leaf.metadata
+    leaf = np.asarray(leaf)
   if (
       not isinstance(leaf, np.ndarray)
       or leaf.dtype.hasobject
-- 
2.43.0


From fb61c626c45da22c1350bc4e1aa5a34d401bc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:46 +0000
Subject: [PATCH 21/40] fix: filter ratio thresholds of zero disabled the check

Only None is documented to disable it.
---
 grain/_src/python/dataset/transformations/filter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/filter.py b/grain/_src/python/dataset/transformations/filter.py
index 2c320d4..1c027aa 100644
--- a/grain/_src/python/dataset/transformations/filter.py
+++ b/grain/_src/python/dataset/transformations/filter.py
@@ -96,8 +96,13 @@ class FilterThresholdChecker:
     self._transform_name = transform_name
     self._passed = 0
     self._skipped = 0
-    self._warn_threshold: float = warn_threshold or float("inf")
-    self._raise_threshold: float = raise_threshold or float("inf")
+    # Zero is a valid threshold, only `None` disables the check.
+    self._warn_threshold: float = (
+        float("inf") if warn_threshold is None else warn_threshold
+    )
+    self._raise_threshold: float = (
+        float("inf") if raise_threshold is None else raise_threshold
+    )
 
   def check(self, passed: bool) -> None:
     """Record whether an element was filtered out and check the ratio."""
@@ -108,7 +113,7 @@ class FilterThresholdChecker:
 
     if self._passed + self._skipped >= _CHECK_FILTERED_INTERVAL:
       skipped_ratio = self._skipped / (self._passed + self._skipped)
-      if skipped_ratio >= self._raise_threshold:
+      if self._skipped and skipped_ratio >= self._raise_threshold:
         raise ValueError(
             f"Transformation {self._transform_name} skipped"
             f" {(skipped_ratio*100):.2f} % of the last seen"
@@ -118,7 +123,7 @@ class FilterThresholdChecker:
             " `grain.experimental.DatasetOptions.filter_raise_threshold_ratio`"
             " used in `WithOptionsIterDataset` to `None`."
         )
-      if skipped_ratio >= self._warn_threshold:
+      if self._skipped and skipped_ratio >= self._warn_threshold:
         logging.log_every_n_seconds(
             logging.WARNING,
             "Transformation %s skipped %.2f %% of the last seen %d elements."
-- 
2.43.0


From 7bf1f2303484505ea6e54cebc11d95ba0e34c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 22/40] fix: negative worker counts produced an empty dataset

mp_prefetch and multithread_prefetch document that the count must be at least 0.
---
 grain/_src/python/dataset/transformations/prefetch.py         | 2 ++
 grain/_src/python/dataset/transformations/process_prefetch.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 72ce1b4..95d3520 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -810,6 +810,8 @@ def multithread_prefetch(
   Returns:
     An `IterDataset` that prefetches elements from `ds` using multiple threads.
   """
+  if num_threads < 0:
+    raise ValueError(f"`num_threads` must be non-negative, got {num_threads}.")
   if num_threads == 0:
     return ds
 
diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1bf3c8a..f4cdb69 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -699,6 +699,8 @@ def multiprocess_prefetch(
   Returns:
     `IterDataset` that prefetches elements from `ds` using multiple processes.
   """
+  if num_workers < 0:
+    raise ValueError(f"`num_workers` must be non-negative, got {num_workers}.")
   if num_workers == 0:
     return ds
 
-- 
2.43.0


From 3a7f326bfcd31ae5dbc7ffed2b246c929738bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 23/40] fix: allow empty arrays in shared memory

---
 grain/_src/python/ipc/shared_memory_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index fde5ce2..4af1459 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -70,7 +70,8 @@ class SharedMemoryArray(np.ndarray):
       dtype: npt.DTypeLike = float,
   ):
     # See https://numpy.org/doc/stable/user/basics.subclassing.html
-    size = math.prod(shape) * np.dtype(dtype).itemsize
+    # Shared memory can not be empty, but arrays can.
+    size = max(math.prod(shape) * np.dtype(dtype).itemsize, 1)
     shm = shared_memory.SharedMemory(create=True, size=size)
     return cls.from_shared_memory(shm, shape, dtype)
 
-- 
2.43.0


From b5e1d19150fa4363cd6367bf24efa991043980af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 24/40] fix: keep masks of arrays sent between processes

---
 grain/_src/python/ipc/shared_memory_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 4af1459..777b9a0 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -209,6 +209,8 @@ def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
     leaf = np.asarray(leaf)
   if (
       not isinstance(leaf, np.ndarray)
+      # The mask would be lost.
+      or isinstance(leaf, np.ma.MaskedArray)
       or leaf.dtype.hasobject
       or not leaf.flags.c_contiguous
       or math.prod(leaf.shape) == 0
-- 
2.43.0


From e61b05b9a26f79f597f84f317afb32e2fd43486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:28 +0000
Subject: [PATCH 25/40] fix: batch elements of different types without changing
 their values

---
 .../python/dataset/transformations/batch.py   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index bcca360..0ae1866 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -57,6 +57,16 @@ _PARALLEL_BATCHING_MIN_TOTAL_BYTES = 4 * 1024 * 1024
 _PARALLEL_BATCHING_MIN_BATCH_SIZE = 4
 
 
+def _stacked_shape_and_dtype(
+    xs: Sequence[Any],
+) -> tuple[tuple[int, ...], np.dtype]:
+  """Returns the shape and dtype that `np.stack(xs)` would have."""
+  arrays = [np.asanyarray(x) for x in xs]
+  shape = (len(arrays),) + arrays[0].shape
+  # The elements can have different types, e.g. int32 and int64.
+  return shape, np.result_type(*(a.dtype for a in arrays))
+
+
 class _MakeBatchParallel:
   """A callable class for batching sequences of structured data in parallel.
 
@@ -91,8 +101,7 @@ class _MakeBatchParallel:
     if not self._output_to_shared_memory:
       return np.stack(xs)
 
-    first_arg = np.asanyarray(xs[0])
-    shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
+    shape, dtype = _stacked_shape_and_dtype(xs)
     if dtype.hasobject:
       return np.stack(xs)
     # For string dtypes, np.stack with a pre-allocated out= array would
@@ -118,8 +127,7 @@ class _MakeBatchParallel:
       if (self._parallel_batch_executor is None) or not all_ndarray:
         return self._stack(xs)
       xs = cast(Sequence[np.ndarray], xs)
-      first_arg = xs[0]
-      shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
+      shape, dtype = _stacked_shape_and_dtype(xs)
       # For string dtypes, the parallel path would silently truncate strings
       # because the output array dtype is inferred from the first element only.
       # Fall back to the serial _stack path which handles strings correctly.
@@ -190,8 +198,7 @@ def make_batch(
   if output_to_shared_memory:
 
     def shm_stacking_function(*args):
-      first_arg = np.asanyarray(args[0])
-      shape, dtype = (len(args),) + first_arg.shape, first_arg.dtype
+      shape, dtype = _stacked_shape_and_dtype(args)
       if dtype.hasobject:
         return np.stack(args)
       # For string dtypes, np.stack with a pre-allocated out= array would
-- 
2.43.0


From bccfdb2b5781e8de71032c9dffb480ad005e79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 26/40] fix: report failures of workers that have a state to
 restore

---
 .../dataset/transformations/process_prefetch.py   | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index f4cdb69..1e4490c 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -296,7 +296,7 @@ def _put_dataset_elements_in_buffer(
     _clear_queue_and_maybe_unlink_shm(set_state_queue)
     grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
         (
-            None,
+            _WorkerFailed(),
             None,
             None,
             e,
@@ -314,6 +314,10 @@ class _SetStateIsDone:
   """Placeholder to indicate set_state has completed in worker process."""
 
 
+class _WorkerFailed:
+  """Placeholder to indicate that the worker process can not go on."""
+
+
 def _close_if_alive(
     iterator_ref: weakref.ReferenceType[dataset.DatasetIterator],
 ):
@@ -508,7 +512,7 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
         except queue.Empty:
           assert self._prefetch_process is not None
           if self._process_failed():
-            element, state, next_index = None, None, None
+            element, state, next_index = _WorkerFailed(), None, None
             err = RuntimeError(
                 "Worker process was terminated unexpectedly with exit code "
                 f"{self._prefetch_process.exitcode}. Search the logs above for "
@@ -518,7 +522,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             continue
         if isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
-        elif self._set_state_count == 0:
+        elif self._set_state_count == 0 or isinstance(element, _WorkerFailed):
+          # A worker that failed will not confirm pending set_state calls.
           break
         elif element is not None:
           # Unlink shared memory for the discarded element.
@@ -578,6 +583,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       _clear_queue_and_maybe_unlink_shm(self._buffer)
     self._prefetch_process = None
     self._set_state_count = 0
+    # Forget the requests that the worker dropped without processing.
+    with self._set_state_request_count.get_lock():
+      _clear_queue_and_maybe_unlink_shm(self._set_state_queue)
+      self._set_state_request_count.value = 0
 
   def get_state(self) -> StateT:
     if self._state is not None:
-- 
2.43.0


From 9d70e779cbf929369013833935469b926efc532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 27/40] fix: report errors of workers that can not be pickled

---
 .../dataset/transformations/process_prefetch.py    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1e4490c..38ab1e5 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -21,6 +21,7 @@ from multiprocessing import queues
 from multiprocessing import sharedctypes
 from multiprocessing import synchronize
 from multiprocessing import util
+import pickle
 import queue
 import time
 from typing import Any, TypeVar
@@ -125,6 +126,15 @@ def _serialize_dataset(ds: dataset.IterDataset) -> bytes:
     raise e
 
 
+def _picklable_error(e: Exception) -> Exception:
+  """Returns the error or, if it can not be sent to another process, a proxy."""
+  try:
+    pickle.loads(pickle.dumps(e))
+    return e
+  except Exception:  # pylint: disable=broad-except
+    return RuntimeError(f"Worker process raised {type(e).__name__}: {e}")
+
+
 def _clear_queue_and_maybe_unlink_shm(q: queues.Queue[Any]) -> int:
   count = 0
   while True:
@@ -264,7 +274,7 @@ def _put_dataset_elements_in_buffer(
                 None,
                 None,
                 None,
-                e,
+                _picklable_error(e),
                 traceback_util.PicklableTraceback.from_traceback(
                     e.__traceback__
                 ),
@@ -299,7 +309,7 @@ def _put_dataset_elements_in_buffer(
             _WorkerFailed(),
             None,
             None,
-            e,
+            _picklable_error(e),
             traceback_util.PicklableTraceback.from_traceback(e.__traceback__),
         ),
         buffer,
-- 
2.43.0


From c7799b1428a83ed183c4eaa365c342f516ae9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:47 +0000
Subject: [PATCH 28/40] fix: report elements of workers that can not be pickled
 instead of dropping them

---
 .../transformations/process_prefetch.py       | 81 ++++++++++++-------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 38ab1e5..f2986e2 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 from collections.abc import Callable, Sequence
 import functools
 from multiprocessing import queues
+from multiprocessing import reduction
 from multiprocessing import sharedctypes
 from multiprocessing import synchronize
 from multiprocessing import util
@@ -126,6 +127,14 @@ def _serialize_dataset(ds: dataset.IterDataset) -> bytes:
     raise e
 
 
+class _PickledElement(bytes):
+  """An element with its position, pickled before it is put in the buffer.
+
+  The buffer pickles in a background thread and would drop elements that can
+  not be pickled.
+  """
+
+
 def _picklable_error(e: Exception) -> Exception:
   """Returns the error or, if it can not be sent to another process, a proxy."""
   try:
@@ -139,7 +148,10 @@ def _clear_queue_and_maybe_unlink_shm(q: queues.Queue[Any]) -> int:
   count = 0
   while True:
     try:
-      shared_memory_array.unlink_shm(q.get_nowait())
+      item = q.get_nowait()
+      if isinstance(item, _PickledElement):
+        item = pickle.loads(item)
+      shared_memory_array.unlink_shm(item)
       count += 1
     except queue.Empty:
       return count
@@ -201,6 +213,26 @@ class ProcessPrefetchIterDataset(dataset.IterDataset[T]):
     return dataset.get_element_spec(self._parent)
 
 
+def _put_error_in_buffer(
+    e: Exception,
+    element: Any,
+    buffer: queues.Queue[Any],
+    should_stop: synchronize.Event,
+) -> None:
+  """Reports an error in a worker process to the main process."""
+  grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
+      (
+          element,
+          None,
+          None,
+          _picklable_error(e),
+          traceback_util.PicklableTraceback.from_traceback(e.__traceback__),
+      ),
+      buffer,
+      should_stop.is_set,
+  )
+
+
 def _put_dataset_elements_in_buffer(
     pickled_parse_debug_flags_fn: bytes,
     pickled_worker_init_fn: bytes,
@@ -269,20 +301,7 @@ def _put_dataset_elements_in_buffer(
       try:
         element = next(it)
       except Exception as e:  # pylint: disable=broad-except
-        grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
-            (
-                None,
-                None,
-                None,
-                _picklable_error(e),
-                traceback_util.PicklableTraceback.from_traceback(
-                    e.__traceback__
-                ),
-            ),
-            buffer,
-            should_stop.is_set,
-        )
-
+        _put_error_in_buffer(e, None, buffer, should_stop)
         parent_exhausted = True
         continue
       element = shared_memory_array.copy_to_shm(element, min_size=min_shm_size)
@@ -292,8 +311,19 @@ def _put_dataset_elements_in_buffer(
         it._stats.record_bytes_produced(element)  # pylint: disable=protected-access
       if next_index is not None:
         next_index += 1
+      try:
+        pickled_element = _PickledElement(
+            reduction.ForkingPickler.dumps(
+                (element, it.get_state(), next_index, None, None)
+            )
+        )
+      except Exception as e:  # pylint: disable=broad-except
+        shared_memory_array.unlink_shm(element)
+        _put_error_in_buffer(e, None, buffer, should_stop)
+        parent_exhausted = True
+        continue
       if not grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
-          (element, it.get_state(), next_index, None, None),
+          pickled_element,
           buffer,
           should_stop.is_set,
       ):
@@ -304,17 +334,7 @@ def _put_dataset_elements_in_buffer(
   except Exception as e:  # pylint: disable=broad-except
     _clear_queue_and_maybe_unlink_shm(buffer)
     _clear_queue_and_maybe_unlink_shm(set_state_queue)
-    grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
-        (
-            _WorkerFailed(),
-            None,
-            None,
-            _picklable_error(e),
-            traceback_util.PicklableTraceback.from_traceback(e.__traceback__),
-        ),
-        buffer,
-        should_stop.is_set,
-    )
+    _put_error_in_buffer(e, _WorkerFailed(), buffer, should_stop)
     return
   _clear_queue_and_maybe_unlink_shm(buffer)
   _clear_queue_and_maybe_unlink_shm(set_state_queue)
@@ -516,9 +536,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       # Loop until we get a non-stale element.
       while True:
         try:
-          element, state, next_index, err, err_traceback = self._buffer.get(
-              timeout=_QUEUE_WAIT_TIMEOUT_S
-          )
+          item = self._buffer.get(timeout=_QUEUE_WAIT_TIMEOUT_S)
+          if isinstance(item, _PickledElement):
+            item = pickle.loads(item)
+          element, state, next_index, err, err_traceback = item
         except queue.Empty:
           assert self._prefetch_process is not None
           if self._process_failed():
-- 
2.43.0


From 9c66dbb51b4c8a228684cc9d6e4a7d4134a9ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:16 +0000
Subject: [PATCH 29/40] fix: pack-and-batch operation: start every pass afresh,
 allow empty input

---
 .../experimental/example_packing/packing.py   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/grain/_src/python/experimental/example_packing/packing.py b/grain/_src/python/experimental/example_packing/packing.py
index 6f2df2e..6bc55b5 100644
--- a/grain/_src/python/experimental/example_packing/packing.py
+++ b/grain/_src/python/experimental/example_packing/packing.py
@@ -202,8 +202,6 @@ class PackAndBatchOperation(Generic[_T]):
   length_struct: Any  # PyTree[int]
   batch_size: int
   max_sequences_per_bin: int | None = None
-  # We don't know input shapes and corresponding buffer shapes until __call__.
-  _cur_batch: Union[_PackedBatch, None] = None
 
   def __post_init__(self):
     logging.error(
@@ -214,10 +212,13 @@ class PackAndBatchOperation(Generic[_T]):
   def __call__(
       self, input_iterator: Iterator[record.Record[_T]]
   ) -> Iterator[record.Record[tuple[_T, _T, _T]]]:
+    # We don't know input shapes and corresponding buffer shapes until the first
+    # element.
+    cur_batch: Union[_PackedBatch, None] = None
     for element in input_iterator:
       # Use `element` to set dtypes + trailing dimensions.
-      if self._cur_batch is None:  # pytype: disable=attribute-error
-        self._cur_batch = _PackedBatch(
+      if cur_batch is None:
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
@@ -225,19 +226,20 @@ class PackAndBatchOperation(Generic[_T]):
         )
 
       # Try adding element to the current packed batch.
-      element_added_to_batch = self._cur_batch.try_add_to_batch(element)
+      element_added_to_batch = cur_batch.try_add_to_batch(element)
 
       # When we have a full batch, yield the current packed data,
       # and then start a new batch with this element.
       if not element_added_to_batch:
-        yield self._cur_batch.get_packed_batch()  # Main yield
-        self._cur_batch = _PackedBatch(
+        yield cur_batch.get_packed_batch()  # Main yield
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
             self.max_sequences_per_bin,
         )
-        self._cur_batch.try_add_to_batch(element)
+        cur_batch.try_add_to_batch(element)
 
     # Final batch
-    yield self._cur_batch.get_packed_batch()
+    if cur_batch is not None:
+      yield cur_batch.get_packed_batch()
-- 
2.43.0


From ec4de100dac49f6892e3472fb4eda8281ac32960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 30/40] fix: slice datasets that are used several times in a
 pipeline only once

---
 .../dataset/transformations/prefetch.py       | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 95d3520..1c05724 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -404,6 +404,7 @@ def _set_slice_iter_dataset(
     ds: dataset.IterDataset,
     sl: slice,
     sequential_slice: bool = False,
+    visited: set[int] | None = None,
 ) -> None:
   """Sets data slice for the given dataset.IterDataset in place.
 
@@ -415,7 +416,13 @@ def _set_slice_iter_dataset(
    ds: dataset.IterDataset to apply slice to.
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
+   visited: ids of the already sliced datasets, a dataset that is used several
+     times in the pipeline must only be sliced once.
   """
+  visited = set() if visited is None else visited
+  if id(ds) in visited:
+    return
+  visited.add(id(ds))
   if isinstance(ds, SupportsInPlaceSlicing):
     ds.set_slice(sl, sequential_slice)
     return
@@ -423,15 +430,16 @@ def _set_slice_iter_dataset(
     raise ValueError(f"Cannot slice `IterDataset` source. {type(ds)}")
   for parent in ds.parents:
     if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
+      _set_slice_map_dataset(parent, sl, sequential_slice, visited)
     else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+      _set_slice_iter_dataset(parent, sl, sequential_slice, visited)
 
 
 def _set_slice_map_dataset(
     ds: dataset.MapDataset,
     sl: slice,
     sequential_slice: bool = False,
+    visited: set[int] | None = None,
 ) -> None:
   """Sets data slice for the given dataset.MapDataset in place.
 
@@ -443,7 +451,13 @@ def _set_slice_map_dataset(
    ds: dataset.MapDataset to apply slice to.
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
+   visited: ids of the already sliced datasets, a dataset that is used several
+     times in the pipeline must only be sliced once.
   """
+  visited = set() if visited is None else visited
+  if id(ds) in visited:
+    return
+  visited.add(id(ds))
   if isinstance(ds, SupportsInPlaceSlicing):
     ds.set_slice(sl, sequential_slice)
     return
@@ -451,9 +465,9 @@ def _set_slice_map_dataset(
     raise ValueError(f"Cannot slice `MapDataset` source. {type(ds)}")
   for parent in ds.parents:
     if isinstance(parent, dataset.MapDataset):
-      _set_slice_map_dataset(parent, sl, sequential_slice)
+      _set_slice_map_dataset(parent, sl, sequential_slice, visited)
     else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+      _set_slice_iter_dataset(parent, sl, sequential_slice, visited)
 
 
 def get_dataset_options(ds: dataset.IterDataset) -> base.DatasetOptions:
-- 
2.43.0


From 467e5faf24ee9b63158e9fa35cdc80d30eced6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 31/40] fix: initial state of a worker that reads a slice of
 the dataset

---
 .../transformations/process_prefetch.py       | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index f2986e2..e0ea1e0 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -16,6 +16,7 @@
 from __future__ import annotations
 
 from collections.abc import Callable, Sequence
+import copy
 import functools
 from multiprocessing import queues
 from multiprocessing import reduction
@@ -686,6 +687,18 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     return f"ProcessPrefetchDatasetIterator(buffer_size={self._buffer_size})"
 
 
+def _copy_dataset_graph(ds: Any, copies: dict[int, Any]) -> Any:
+  """Copies the datasets of a pipeline, but nothing they refer to."""
+  if id(ds) not in copies:
+    ds_copy = copy.copy(ds)
+    copies[id(ds)] = ds_copy
+    if parents := getattr(ds, "_parents", ()):
+      ds_copy._parents = tuple(  # pylint: disable=protected-access
+          _copy_dataset_graph(p, copies) for p in parents
+      )
+  return copies[id(ds)]
+
+
 class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
   """Applies slice to the parent dataset in the worker process."""
 
@@ -700,12 +713,16 @@ class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
     self._sequential_slice = sequential_slice
 
   def __iter__(self) -> dataset.DatasetIterator[T]:
+    parent = self._parent
     if not _is_in_worker_process:
-      return self._parent.__iter__()
+      # Only used to get the state before the worker process has produced any
+      # elements. The state has to match the slice, but the dataset is shared
+      # with the other workers.
+      parent = _copy_dataset_graph(parent, {})
     prefetch._set_slice_iter_dataset(
-        self._parent, self._slice, self._sequential_slice
+        parent, self._slice, self._sequential_slice
     )
-    return self._parent.__iter__()
+    return parent.__iter__()
 
   @property
   def _element_spec(self) -> Any:
-- 
2.43.0


From 86b93b62593ebd6699ba368af1baadf1811c9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:42 +0000
Subject: [PATCH 32/40] fix: sequential slices of a source that is used several
 times

---
 grain/_src/python/dataset/transformations/source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/source.py b/grain/_src/python/dataset/transformations/source.py
index 9cec968..fea8f54 100644
--- a/grain/_src/python/dataset/transformations/source.py
+++ b/grain/_src/python/dataset/transformations/source.py
@@ -134,7 +134,9 @@ class SourceMapDataset(dataset.MapDataset):
     assert sequential_slice, "Only sequential slicing is supported."
     if not self._original_source_map_dataset:
       self._original_source_map_dataset = SourceMapDataset(self._source)
-    new_slice = self._get_sequential_slice(sl)
+    # The dataset can be used several times in the pipeline: slice the original.
+    # pylint: disable-next=protected-access
+    new_slice = self._original_source_map_dataset._get_sequential_slice(sl)
     self._source = self._original_source_map_dataset.slice(new_slice)
 
   def log_lineage(self):
-- 
2.43.0


From eba6958a6fdf52e82812f02aaa895048b5a95f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 33/40] fix: interleaving no datasets raised IndexError instead
 of ending

---
 grain/_src/python/dataset/transformations/interleave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 01aaf74..83813cb 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -97,6 +97,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self) -> T:
     self._assert_not_closed()
+    if not self._cycle_length:
+      # There are no datasets, e.g. in a worker process that got no slice.
+      raise StopIteration
     self._started = True
     timer = stats.Timer()
     _ = self._stats  # eagerly initialize stats
-- 
2.43.0


From 6a1acfe87c4f188214011b1497f45b0b29257bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 34/40] fix: parquet files without row groups raised an error
 instead of being empty

---
 grain/_src/python/dataset/sources/parquet_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 6b31d60..8b2b461 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -51,6 +51,9 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
     self._read_row_group_to_np_table()
 
   def _read_row_group_to_np_table(self):
+    if self._row_group >= self._pq_file.num_row_groups:
+      # The file has no rows.
+      return
     table = self._pq_file.read_row_group(self._row_group)
     self._row_group_len = len(table)
     self._np_table = {}
-- 
2.43.0


From c6614d0d32ec415cd4af8d50e9672419ecf6e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:31 +0000
Subject: [PATCH 35/40] fix: window shuffle of a random-access dataset whose
 length is not a multiple of the window lost and repeated elements

---
 .../python/dataset/transformations/shuffle.py    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 2ccd9f8..d036e02 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -110,16 +110,20 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
     return "WindowShuffleMapDataset"
 
   def _shuffled_index(self, index: int) -> int:
-    window_index, index_in_window = divmod(index, self._window_size)
+    length = len(self._parent)
+    epoch, index_in_epoch = divmod(index, length)
+    window_in_epoch, index_in_window = divmod(index_in_epoch, self._window_size)
+    window_start = window_in_epoch * self._window_size
+    # The last window of an epoch can be smaller.
+    window_size = min(self._window_size, length - window_start)
+    windows_per_epoch = (length + self._window_size - 1) // self._window_size
+    window_index = epoch * windows_per_epoch + window_in_epoch
     # index_shuffle expects 32-bit seeds.
     seed = (self._seed + window_index) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
-        index_in_window,
-        max_index=self._window_size - 1,
-        seed=seed,
-        rounds=4,
+        index_in_window, max_index=window_size - 1, seed=seed, rounds=4
     )
-    return shuffled_index_in_window + window_index * self._window_size
+    return shuffled_index_in_window + window_start + epoch * length
 
   def __getitem__(self, index):
     if isinstance(index, slice):
-- 
2.43.0


From 428c095ab804a16b3c5cbfe68b0f8e262dd8243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:51 +0000
Subject: [PATCH 36/40] fix: closed iterators kept delivering buffered elements
 or reported the end instead of raising ValueError

---
 grain/_src/python/dataset/elastic_iterator.py              | 7 +++++++
 grain/_src/python/dataset/sources/parquet_dataset.py       | 1 +
 grain/_src/python/dataset/sources/tfrecord_dataset.py      | 1 +
 grain/_src/python/dataset/transformations/cache.py         | 1 +
 grain/_src/python/dataset/transformations/flatmap.py       | 1 +
 grain/_src/python/dataset/transformations/limit.py         | 1 +
 grain/_src/python/dataset/transformations/mix.py           | 1 +
 grain/_src/python/dataset/transformations/packing.py       | 1 +
 .../dataset/transformations/packing_concat_then_split.py   | 1 +
 grain/_src/python/dataset/transformations/prefetch.py      | 2 +-
 grain/_src/python/dataset/transformations/rebatch.py       | 1 +
 grain/_src/python/dataset/transformations/repeat.py        | 1 +
 grain/_src/python/dataset/transformations/shuffle.py       | 1 +
 13 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index c0cb2a3..4e9004e 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -335,6 +335,7 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
     return ds.__iter__()
 
   def __next__(self) -> Any:
+    self._assert_not_closed()
     result = next(self._iterator)
     self._global_next_index += self._global_batch_size
     return result
@@ -349,8 +350,10 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
     if "_iterator" in self.__dict__:
       self.__dict__["_iterator"].close()
     self.__dict__.pop("_iterator", None)
+    self._closed = False
 
   def close(self) -> None:
+    self._closed = True
     if "_iterator" in self.__dict__:
       self._iterator.close()
 
@@ -473,10 +476,12 @@ class ElasticIterator(dataset.DatasetIterator):
     Returns:
       The next element in the iteration.
     """
+    self._assert_not_closed()
     return next(self.base_iterator)
 
   def close(self) -> None:
     """Closes the base iterator if it was created for backwards compatibility."""
+    self._closed = True
     if "base_iterator" in self.__dict__:
       self.base_iterator.close()
 
@@ -494,6 +499,7 @@ class ElasticIterator(dataset.DatasetIterator):
       self.base_iterator.close()
       self.__dict__.pop("base_iterator")
     self.base_iterator.set_state(state)
+    self._closed = False
 
   def get_shard_states(self) -> Any:
     """Returns the state of the inner iterator.
@@ -523,3 +529,4 @@ class ElasticIterator(dataset.DatasetIterator):
           " ElasticIterator."
       )
     self.base_iterator.set_shard_states(shard_states)
+    self._closed = False
diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 8b2b461..cde7d57 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -61,6 +61,7 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
       self._np_table[table.field(i).name] = table.column(i).to_numpy()
 
   def __next__(self):
+    self._assert_not_closed()
     if self._index_within_row_group >= self._row_group_len:
       if self._row_group < self._pq_file.num_row_groups - 1:
         self._row_group += 1
diff --git a/grain/_src/python/dataset/sources/tfrecord_dataset.py b/grain/_src/python/dataset/sources/tfrecord_dataset.py
index 5f7561e..5f17524 100644
--- a/grain/_src/python/dataset/sources/tfrecord_dataset.py
+++ b/grain/_src/python/dataset/sources/tfrecord_dataset.py
@@ -86,6 +86,7 @@ class _TFRecordDatasetIterator(dataset.DatasetIterator[T]):
     self._reader = _TFRecordReader(path)
 
   def __next__(self) -> T:
+    self._assert_not_closed()
     return next(self._reader)
 
   def get_state(self) -> dict[str, int]:
diff --git a/grain/_src/python/dataset/transformations/cache.py b/grain/_src/python/dataset/transformations/cache.py
index f0582a0..f41981b 100644
--- a/grain/_src/python/dataset/transformations/cache.py
+++ b/grain/_src/python/dataset/transformations/cache.py
@@ -63,6 +63,7 @@ class _InMemoryCacheDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self) -> T:
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._cache_filled:
       with self._stats.record_self_time():
diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 00058b4..2263bed 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -99,6 +99,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     while self._has_consumed_all_buffer_elements():
       # Stores the previous state so that we can checkpoint this iterator
diff --git a/grain/_src/python/dataset/transformations/limit.py b/grain/_src/python/dataset/transformations/limit.py
index a496318..1fd1c04 100644
--- a/grain/_src/python/dataset/transformations/limit.py
+++ b/grain/_src/python/dataset/transformations/limit.py
@@ -37,6 +37,7 @@ class _LimitDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._count_elements_read >= self._count:
       raise StopIteration
     value = next(self._parent)
diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index 74cdb50..d73e261 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -209,6 +209,7 @@ class _MixedDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._stop:
       # Although there may be elements available in some parent datasets, do not
       # sample once stop signal is turned on.
diff --git a/grain/_src/python/dataset/transformations/packing.py b/grain/_src/python/dataset/transformations/packing.py
index 21a69b2..915194f 100644
--- a/grain/_src/python/dataset/transformations/packing.py
+++ b/grain/_src/python/dataset/transformations/packing.py
@@ -178,6 +178,7 @@ class PackingDatasetIterator(dataset.DatasetIterator):
       stage_category=dataset_stats.IPL_CAT_PREPROCESSING
   )
   def __next__(self):
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     if self._packed_batch is not None:
       # We have a packed batch, we emit one row at a time until exhausted.
diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index cf73f72..04d4f64 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -402,6 +402,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     if self._packed_elements:
       self._state.elements_from_buffer_after_checkpoint += 1
       return self._stats.record_output_spec(self._packed_elements.popleft())
diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 1c05724..f771ee4 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -654,7 +654,7 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       stage_category=dataset_stats.IPL_CAT_PREFETCH
   )
   def __next__(self):
-
+    self._assert_not_closed()
     timer = dataset_stats.Timer()
     with timer:
       if self._target_prefetch_buffer_size > 0:
diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index bbbefb9..cbc9fe8 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -111,6 +111,7 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
 
     batch_dim_needed = self._batch_size
diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index e1d2cc5..050098b 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -111,6 +111,7 @@ class _RepeatDatasetIterator(dataset.DatasetIterator[T]):
 
   @stats.record_next_duration_if_output
   def __next__(self):
+    self._assert_not_closed()
     timer = stats.Timer()
     if self._epoch == self._num_epochs:
       raise StopIteration
diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index d036e02..35059ec 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -222,6 +222,7 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
   @stats.record_next_duration_if_output
   @stats.trace_input_pipeline_next(stage_category=stats.IPL_CAT_PREPROCESSING)
   def __next__(self):
+    self._assert_not_closed()
     # Window is empty, fill up the next window.
     if not self._window:
       if self._parent_exhausted:
-- 
2.43.0


From 1a26da98d526645e00b05cfdc7fdb6f40e6f7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:29 +0000
Subject: [PATCH 37/40] fix: execution summaries lost and overwrote nodes when
 an interleaved or multi-process stage was one of several inputs

---
 grain/_src/python/dataset/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 985bb39..9c41b12 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -1079,6 +1079,8 @@ class _MPPrefetchExecutionStats(_ExecutionStats):
     execution_summary = stats_utils.get_complete_summary(
         execution_summary, combined_summary_from_workers, current_node_id + 1
     )
+    # Nodes after this one must not reuse the IDs of the workers' nodes.
+    node_id = max(execution_summary.nodes)
     for p in self._parents:
       node_id += 1
       execution_summary.nodes[current_node_id].inputs.append(node_id)
@@ -1148,7 +1150,8 @@ class _InterleaveExecutionStats(_ExecutionStats):
     execution_summary = stats_utils.get_complete_summary(
         execution_summary, combined_summary, current_node_id + 1
     )
-    return execution_summary, node_id
+    # Nodes after this one must not reuse the IDs of the merged nodes.
+    return execution_summary, max(execution_summary.nodes)
 
 
 def make_stats(
-- 
2.43.0


From 7fb1e68f3661011fad0f481455ab2330963834c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:45 +0000
Subject: [PATCH 38/40] fix: options set above a stage that saves its input's
 position did not reach the streams of an interleave below it

---
 .../dataset/transformations/interleave.py     | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 83813cb..6a7badf 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -100,6 +100,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     if not self._cycle_length:
       # There are no datasets, e.g. in a worker process that got no slice.
       raise StopIteration
+    self._propagate_options()
     self._started = True
     timer = stats.Timer()
     _ = self._stats  # eagerly initialize stats
@@ -428,7 +429,20 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       if iterator is not None:
         iterator.close()
 
+  def _propagate_options(self):
+    """Passes options on to iterators created before the options were known.
+
+    A stage above may ask for the initial state, which creates iterators, before
+    the options that are applied further up are merged into the context.
+    """
+    if self._started:
+      return
+    for it in self._iterators_in_use:
+      if it is not None:
+        _merge_options(it, self._ctx)
+
   def start_prefetch(self):
+    self._propagate_options()
     for it in self._iterators_in_use:
       if it is not None:
         it.start_prefetch()
@@ -481,6 +495,17 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     return self._cached_start_states[index]
 
 
+def _merge_options(
+    iterator: dataset.DatasetIterator, ctx: base.IteratorContext
+) -> None:
+  """Propagates options applied after interleave to an interleaved iterator."""
+  # pylint: disable=protected-access
+  iterator._ctx.dataset_options = ctx.dataset_options.merge(
+      iterator._ctx.dataset_options
+  )
+  # pylint: enable=protected-access
+
+
 def _add_prefetch_and_make_iterator(
     ds: dataset.IterDataset[T] | dataset.MapDataset[T],
     interleave_iterator: weakref.ref[dataset.DatasetIterator[T]],
@@ -528,10 +553,7 @@ def _add_prefetch_and_make_iterator(
 
   # Propagate options applied after InterleaveIterDataset to the iterators that
   # are being interleaved.
-  iterator._ctx.dataset_options = ctx.dataset_options.merge(
-      iterator._ctx.dataset_options
-  )
-  iterator._ctx.dataset_options = ctx.dataset_options.merge(iterator._ctx.dataset_options)  # pylint: disable=protected-access
+  _merge_options(iterator, ctx)
 
   if start_prefetch:
     iterator.start_prefetch()
-- 
2.43.0


From 7aae07bff14ba230beb235d8afcce0a201d49951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:29 +0000
Subject: [PATCH 39/40] fix: the execution summary lost everything below an
 interleave that is not the last stage

---
 grain/_src/python/dataset/transformations/interleave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 6a7badf..1b3188c 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -475,6 +475,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         execution_tracking_mode=execution_tracking_mode,
     )
     self._stats._self_output_spec = output_spec  # pylint: disable=protected-access
+    # A downstream stage may initialize the statistics again after elements have
+    # been produced, the interleaved iterators stay the inputs.
+    self._stats._parents = [p for p in self._parent_stats if p is not None]  # pylint: disable=protected-access
     return self._stats
 
   def __str__(self) -> str:
-- 
2.43.0


From 0291bdea1775521ecdaeb702c98503ad383d3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:42 +0000
Subject: [PATCH 40/40] fix: parallel batching silently broadcast elements of
 different shapes instead of raising ValueError

---
 grain/_src/python/dataset/transformations/batch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 0ae1866..b119e5b 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -127,6 +127,10 @@ class _MakeBatchParallel:
       if (self._parallel_batch_executor is None) or not all_ndarray:
         return self._stack(xs)
       xs = cast(Sequence[np.ndarray], xs)
+      # Copying into slices of the output would silently broadcast smaller
+      # elements, `np.stack` raises an error.
+      if any(x.shape != xs[0].shape for x in xs):
+        return self._stack(xs)
       shape, dtype = _stacked_shape_and_dtype(xs)
       # For string dtypes, the parallel path would silently truncate strings
       # because the output array dtype is inferred from the first element only.
-- 
2.43.0

