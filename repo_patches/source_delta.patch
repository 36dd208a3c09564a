From 6c13589e0967e555369aa7fc8bb79bab11170fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 01/26] fix: HDF5Collector.finished waits until all samples
 have been written

---
 jax_sgmc/io.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index bc07d97..f86cf46 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -410,7 +410,7 @@ class HDF5Collector(DataCollector):
 
   def __init__(self, file: HDF5File):
     assert h5py is not None, "h5py must be installed to use this DataCollector."
-    # Barrier to wait until all data has been processed
+    # Locks to wait until all data has been processed
     self._finished = []
     self._sample_count = []
     self._leaf_names = []
@@ -455,7 +455,8 @@ class HDF5Collector(DataCollector):
         dtype=leaf.dtype)
     self._sample_count.append(0)
     self._leaf_names.append(leaf_names)
-    self._finished.append(threading.Barrier(2))
+    self._finished.append(threading.Lock())
+    self._finished[chain_id].acquire()
     return chain_id
 
   def save(self, chain_id: int, values):
@@ -478,7 +479,7 @@ class HDF5Collector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].release()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -490,14 +491,15 @@ class HDF5Collector(DataCollector):
     """Returns after everything has been written to the file.
 
     Finalize is scheduled via host_callback and finished is called in the normal
-    python flow. Via a barrier it is possible to pause the program flow until
-    all asynchronously saved data has been processed.
+    python flow. Via a lock it is possible to pause the program flow until all
+    asynchronously saved data has been processed.
 
     Args:
       chain_id: ID of chain requesting continuation of normal program flow.
 
     """
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].acquire()
+    self._finished[chain_id].release()
 
 class MemoryCollector(DataCollector):
   """Stores samples entirely in RAM (numpy arrays).
-- 
2.43.0


From a4b58cd41deb69a7026ecd3bf2199d6c702109f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 02/26] fix: MemoryCollector.finished waits until the npz file
 has been written

---
 jax_sgmc/io.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index f86cf46..db6b3c5 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -583,14 +583,17 @@ class MemoryCollector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    self._finished[chain_id].release()
-    if self._dir:
-      output_dir = Path(self._dir)
-      output_file = output_dir / f"chain_{chain_id}.npz"
-      output_dir.mkdir(exist_ok=True)
-      onp.savez(
-        output_file,
-        **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    try:
+      if self._dir:
+        output_dir = Path(self._dir)
+        output_file = output_dir / f"chain_{chain_id}.npz"
+        output_dir.mkdir(exist_ok=True)
+        onp.savez(
+          output_file,
+          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    finally:
+      # The results must be returned even if writing the file failed
+      self._finished[chain_id].release()
 
   def finished(self, chain_id):
     """Returns samples after all data has been processed.
-- 
2.43.0


From 82a404e258d9546b84fbf8f1b0a6f8780ad8be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/26] fix: JSONCollector.finished waits until the last file
 has been written

---
 jax_sgmc/io.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index db6b3c5..5736e37 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -311,6 +311,8 @@ class JSONCollector(DataCollector):
     assert ujson is not None, "ujson is required to save samples to json files"
     self._dir = Path(dir)
     self._dir.mkdir(exist_ok=True)
+    # Locks to wait until all data has been processed
+    self._finished = []
     self._collected_samples = []
     self._sample_count = []
     self._write_frequency = write_frequency
@@ -328,6 +330,8 @@ class JSONCollector(DataCollector):
     new_chain = len(self._collected_samples)
     self._collected_samples.append([])
     self._sample_count.append(0)
+    self._finished.append(threading.Lock())
+    self._finished[new_chain].acquire()
     return new_chain
 
   def save(self, chain_id: int, values):
@@ -344,8 +348,11 @@ class JSONCollector(DataCollector):
 
   def finalize(self, chain_id: int):
     """Called after solver finished. """
-    if self._sample_count[chain_id] > 0:
-      self._write_file(chain_id, self._sample_count[chain_id])
+    try:
+      if self._sample_count[chain_id] > 0:
+        self._write_file(chain_id, self._sample_count[chain_id])
+    finally:
+      self._finished[chain_id].release()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -371,8 +378,9 @@ class JSONCollector(DataCollector):
       ujson.dump(samples_as_list, file) # pylint: disable=c-extension-no-member
 
   def finished(self, chain_id: int):
-    """Simply return, nothing to wait for. """
-    return None
+    """Returns after the collected samples have been written to the file. """
+    self._finished[chain_id].acquire()
+    self._finished[chain_id].release()
 
 
 class HDF5Collector(DataCollector):
-- 
2.43.0


From a26bedd6f705caeb476bde5dfb931d62f3a2133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 04/26] fix: keep names and leaves of pytrees in the same order
 when converting to dict

---
 jax_sgmc/io.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 5736e37..ad05b3c 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -170,19 +170,18 @@ def pytree_dict_keys(tree: PyTree):
       [('a', 'list_element_0'), ('a', 'list_element_1'), ('b',)]
 
   """
-  node = pytree_to_dict(tree)
-  leaves, treedef = tree_util.tree_flatten(node)
+  # Enumerate the leaves of the original tree, as the leaves of the tree as dict
+  # are ordered differently (e.g. alphabetically).
+  leaves, treedef = tree_util.tree_flatten(tree)
   idx_tree = tree_util.tree_unflatten(treedef, list(range(len(leaves))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
-    if node is None:
-      return
-    elif isinstance(node, int):
+    if isinstance(node, int):
       key_list[node] = path
-    else:
+    elif isinstance(node, dict):
       for key, value in node.items():
         _recurse(value, path + [key])
-  _recurse(idx_tree, [])
+  _recurse(pytree_to_dict(idx_tree), [])
   return [tuple(key) for key in key_list]
 
 def dict_to_pytree(pytree_as_dict: dict, target: PyTree):
-- 
2.43.0


From 8769965125e0d7e7cbf690d2e24df020ddf5b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 05/26] fix: NumpyDataLoader.load_state leaves the checkpoint
 unchanged

---
 jax_sgmc/data/numpy_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 02b84eb..120f446 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -217,12 +217,13 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     """
     # Restore the state by setting the random number generators to the
     # checkpointed state
-    type, value = data.popitem()
+    (type, value), = data.items()
     if type == 'random':
       rng_state, chain_data = value
       self._chains[chain_id]['rng'].bit_generator.state = rng_state
+      # The checkpoint must not be changed by the restored chain
       for key, value in chain_data.items():
-        self._chains[chain_id][key] = value
+        self._chains[chain_id][key] = deepcopy(value)
     elif type == 'ordered':
       self._chains[chain_id]['idx_offset'] = value
     else:
-- 
2.43.0


From 6f7d840a823cde381bceeee33659b3580bbf3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 06/26] fix: serve outdated data requests if calls are not
 verified

---
 jax_sgmc/data/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index a478fc9..222b541 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -447,14 +447,16 @@ class _Requests:
                       f"{chain_id}. This might be due to using a pmap in a "
                       f"jitted function. If the preservation ")
 
-      # The request is valid and the first request, so the results have to be
+      # It is the first request with this token, so the results have to be
       # stored in the cache
-      else:
+      if old_request is None:
         # Issue a new token and request data
         new_token = JaxUUID()
         callback_response = self._host_data_loaders[callback_uuid.as_uuid].get_batches(chain_id)
 
-        self._requests[callback_uuid.as_uuid][int(chain_id)] = new_token.as_uuid
+        # Outdated requests (see above) must not replace the expected token
+        if current_token == token.as_uuid or current_token is None:
+          self._requests[callback_uuid.as_uuid][int(chain_id)] = new_token.as_uuid
         # Store data if other devices are going to request it
         if device_count != 1:
           self._cached_requests[token.as_uuid] = [
-- 
2.43.0


From 954f572a10e9446afb8c50bbd66d54bd377fe2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 07/26] fix: full_reference_data passes the batch size to
 device data loaders

---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 222b541..4703f1d 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -552,7 +552,7 @@ def full_reference_data(data_loader: DataLoader,
       data_loader, cached_batches_count, mb_size)
   elif isinstance(data_loader, DeviceDataLoader):
     init_fn, (_batch_fn, mb_information), cleanup = _full_reference_data_device(
-      data_loader, cached_batches_count)
+      data_loader, mb_size)
   else:
     raise TypeError("The DataLoader must inherit from HostDataLoader or "
                     "DeviceDataLoader")
-- 
2.43.0


From 937e539528777f0b4450b36990bdc8843f252219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 08/26] fix: every pass over a DeviceDataLoader starts at the
 same observation

---
 jax_sgmc/data/core.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 4703f1d..8ef99f5 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -936,19 +936,24 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"observation count. Given {offset} and "
                        f"{total_observations}.")
 
-    init_state = CacheState(current_line=offset)
+    # The current line counts the observations already returned in this pass
+    init_state = CacheState(current_line=jnp.array(0), state=jnp.array(offset))
     return init_state
 
   def batch_fn(data_state: CacheState,
                information: bool = False,
                device_count: int = 1):
     del device_count
-    indices = jnp.mod(jnp.arange(mb_size) + data_state.current_line,
-                      total_observations)
+    indices = jnp.mod(
+      jnp.arange(mb_size) + data_state.current_line + data_state.state,
+      total_observations)
 
-    # Update the offset, where to start slicing in the next iteration.
+    # Update the offset, where to start slicing in the next iteration. The next
+    # pass starts again at the first observation if all have been returned.
+    next_line = data_state.current_line + mb_size
     new_state = CacheState(
-      current_line=jnp.mod(indices[-1] + 1, total_observations))
+      current_line=jnp.where(next_line < total_observations, next_line, 0),
+      state=data_state.state)
 
     selected_data = tree_index(reference_data, indices)
 
-- 
2.43.0


From ab927045a70929e732ba3bbefefab59a218d547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 09/26] fix: full_data_mapper passes the carry on for functions
 which are not batched

---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 8ef99f5..17c603e 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1105,7 +1105,7 @@ def full_data_mapper(data_loader: DataLoader = None,
             state = None
           else:
             state = tree_util.tree_map(
-              partial(jnp.take_along_axis, indices=0, axis=0),
+              partial(jnp.take, indices=0, axis=0),
               states)
           return results, state
 
-- 
2.43.0


From 3993c176bb9f3127656179b845f33ea57023bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 10/26] fix: io.save discards samples on the host if the cond
 is vectorized

---
 jax_sgmc/io.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index ad05b3c..8338c48 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -696,22 +696,26 @@ def save(data_collector: DataCollector = None,
   # Helper functions for host_callback
 
   def _save(data, *unused_args):
-    chain_ids, data = data
+    chain_ids, keep, data = data
 
-    # id_tap sends batched arguments to the host
+    # id_tap sends batched arguments to the host. Under vmap, the cond is
+    # replaced by a select and thus also samples to discard are received.
     if chain_ids.ndim == 0:
-      data_collector.save(chain_ids, data)
+      if keep:
+        data_collector.save(chain_ids, data)
     else:
+      keep = onp.broadcast_to(keep, chain_ids.shape)
       for idx, chain_id in enumerate(chain_ids):
-        data_collector.save(chain_id, [leaf[idx] for leaf in data])
+        if keep[idx]:
+          data_collector.save(chain_id, [leaf[idx] for leaf in data])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
     # used to avoid losing the call to Jax's optimizations.
     # Only return the leaves, as tree structure is redundant and requires
     # flattening on the host.
-    chain_id, data = args
-    flat_args = (chain_id, tree_util.tree_leaves(data))
+    chain_id, keep, data = args
+    flat_args = (chain_id, keep, tree_util.tree_leaves(data))
     counter = host_callback.id_tap(_save, flat_args, result=1)
     return counter
 
@@ -744,7 +748,7 @@ def save(data_collector: DataCollector = None,
     return lax.cond(keep,
                     _save_wrapper,
                     lambda *args: 0,
-                    (state.chain_id, sample))
+                    (state.chain_id, keep, sample))
 
   # Todo: Generalize the saving by contracting the scheduler state and the
   #       solver state to a single checkpointing state.
-- 
2.43.0


From 124887fe2d0912de2c1cbe2bb40fa229af32458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 11/26] fix: progress bar supports vectorized schedulers and
 chains

---
 jax_sgmc/scheduler.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e36ac60..63cf105 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -28,6 +28,7 @@ from typing import Callable, Tuple
 import jax.numpy as jnp
 from jax import lax
 from jax import random
+from jax import tree_util
 from jax.experimental import host_callback as hcb
 
 from jax_sgmc.util import Array
@@ -309,6 +310,16 @@ def _progress_bar(burn_in: specific_scheduler,
   """
 
   def _print_fn(info, _):
+    # The cond is replaced by a select if multiple schedulers or chains are
+    # vectorized. Therefore, the information is batched and also received if the
+    # progress should not be printed.
+    if info["show"].ndim > 0:
+      for idx in range(len(info["show"])):
+        _print_fn(tree_util.tree_map(lambda leaf: leaf[idx], info), _)
+      return
+    if not info["show"]:
+      return
+
     percentage = round(
       int(info['current_iteration']) / int(info['total_iterations']) * 100)
     total_samples = int(info["total_samples"])
@@ -355,8 +366,9 @@ def _progress_bar(burn_in: specific_scheduler,
     num_its = jnp.int_(jnp.floor(iterations / steps))
 
     # Return the number of collected samples as result of id_tap
+    info["show"] = jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled)
     collected_samples = lax.cond(
-      jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled),
+      info["show"],
       lambda arg: hcb.id_tap(_print_fn, arg, result=collected_samples),
       lambda arg: info["collected_samples"],
       info
-- 
2.43.0


From 4d10c40fbafa738aa7eb7321035afd6f3bdec1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 12/26] fix: reject proposals with undefined energy in AMAGOLD
 and SGGMC

---
 jax_sgmc/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index d1db1d3..36c9bcd 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -384,6 +384,8 @@ def amagold(integrator_fn,
     # Limit acceptance ratio to 1.0
     log_alpha = state.potential - new_potential + proposal.potential
     log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
+    # Never accept proposals with undefined energy
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     slice = random.uniform(split)
 
     # If true, the step is accepted
@@ -523,7 +525,9 @@ def sggmc(integrator_fn,
       + proposal.kinetic_energy_end - proposal.kinetic_energy_start)
     # Limit the probability to 1.0 to ensure correct calculation of acceptance
     # ratio statistics.
-    log_alpha = jnp.where(log_alpha <= 0, log_alpha, 0.0)
+    log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
+    # Never accept proposals with undefined energy
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
 
     slice = random.uniform(split)
 
-- 
2.43.0


From 74300747ac0e7b07ee84967ebea52b9ae1d0c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 13/26] fix: polynomial step size schedule with equal first and
 last step size

---
 jax_sgmc/scheduler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 63cf105..d81ddeb 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -539,7 +539,11 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
-    a, b = find_ab(iterations, gamma, first, last)
+    if first == last or iterations == 1:
+      # The step size is constant
+      a, b, gamma = first, 1.0, 0.0
+    else:
+      a, b = find_ab(iterations, gamma, first, last)
     init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
     return init_fn(iterations)
 
-- 
2.43.0


From 92a05dc59bd0cab501aaf97bf4ef047ec5dd054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 14/26] fix: repeating a failed read of the HDF5Loader must not
 skip observations

The chain advanced before the file was read, so that a request repeated after
an input/output error continued with the next observations.
---
 jax_sgmc/data/hdf5_loader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jax_sgmc/data/hdf5_loader.py b/jax_sgmc/data/hdf5_loader.py
index 4278d95..e232175 100644
--- a/jax_sgmc/data/hdf5_loader.py
+++ b/jax_sgmc/data/hdf5_loader.py
@@ -75,6 +75,16 @@ class HDF5Loader(NumpyDataLoader):
       `mb_size` observations.
 
     """
+    # A chain must not skip observations if the file cannot be read, hence
+    # restore its state to allow repeating the request.
+    chain_state = super().save_state(chain_id)
+    try:
+      return self._read_batches(chain_id)
+    except Exception:
+      super().load_state(chain_id, chain_state)
+      raise
+
+  def _read_batches(self, chain_id: int) -> PyTree:
     # Data slicing is the same for all methods of random and ordered access,
     # only the indices for slicing differ. The method _get_indices find the
     # correct method for the chain.
-- 
2.43.0


From c055a146a83e1650caad47f93f88c5dacbeb4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 15/26] fix: a failure to save the sample of one chain must not
 lose those of others

Vectorized chains are saved in a single callback, which stopped at the first
chain whose sample could not be saved.
---
 jax_sgmc/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 8338c48..6f5d81c 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -705,9 +705,16 @@ def save(data_collector: DataCollector = None,
         data_collector.save(chain_ids, data)
     else:
       keep = onp.broadcast_to(keep, chain_ids.shape)
+      failure = None
       for idx, chain_id in enumerate(chain_ids):
         if keep[idx]:
-          data_collector.save(chain_id, [leaf[idx] for leaf in data])
+          try:
+            data_collector.save(chain_id, [leaf[idx] for leaf in data])
+          except Exception as error: # pylint: disable=broad-except
+            # The samples of the other chains must still be saved
+            failure = error if failure is None else failure
+      if failure is not None:
+        raise failure
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
-- 
2.43.0


From 68ba2fc1250975d524796495eb20bdb056998ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 16/26] fix: JSON files of the collector are replaced in a
 single step

With a write frequency the final file can carry the name of the last periodic
one. Rewriting it in place destroyed a complete file if the process died.
---
 jax_sgmc/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 6f5d81c..9608d55 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -363,7 +363,6 @@ class JSONCollector(DataCollector):
 
   def _write_file(self, chain_id, iteration):
     filename = self._dir / f"chain_{chain_id}_iteration_{iteration}.json"
-    filename.touch()
     # Transform collected samples to list after chaining together
     stacked_samples = tree_util.tree_map(
       lambda *samples: onp.stack(samples, axis=0),
@@ -373,8 +372,12 @@ class JSONCollector(DataCollector):
       lambda leaf: leaf.tolist(),
       stacked_samples
     )
-    with open(filename, "w") as file:
+    # The file might already exist (last periodic output). Replace it in a single
+    # step, such that it is never damaged if writing is interrupted.
+    temporary_file = self._dir / f"{filename.name}.tmp"
+    with open(temporary_file, "w") as file:
       ujson.dump(samples_as_list, file) # pylint: disable=c-extension-no-member
+    temporary_file.replace(filename)
 
   def finished(self, chain_id: int):
     """Returns after the collected samples have been written to the file. """
-- 
2.43.0


From cffddb415f00350a6d911fb375b827b93eab79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 17/26] fix: adaptive step size respects the target acceptance
 rate of the state

---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index d81ddeb..65d8e45 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -434,7 +434,7 @@ def adaptive_step_size(burn_in = 0,
     m = iteration + 1
 
     h_bar *= (1 - 1/(m + t0))
-    h_bar += 1/(m + t0) * (target_acceptance_rate - acceptance_ratio)
+    h_bar += 1/(m + t0) * (alpha - acceptance_ratio)
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-- 
2.43.0


From 6fd9abf75130cfc7117fd37f72b93216b5dfaeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 18/26] fix: noise of the friction leapfrog balances the
 friction

---
 jax_sgmc/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 09df0a3..b9a13e0 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -651,7 +651,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     else:
       noise_state = None
       scaled_noise = tree_scale(jnp.sqrt(2 * parameters.step_size), noise)
-      scaled_noise = tree_multiply(friction, scaled_noise)
+      scaled_noise = tree_multiply(
+        tree_util.tree_map(jnp.sqrt, friction), scaled_noise)
     new_momentum = tree_add(new_momentum, scaled_noise)
 
     new_state = LeapfrogState(
-- 
2.43.0


From cc361ea719bbffaf189a089f7c26296c6f6d3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 19/26] fix: the square root of a full mass matrix was not a
 root of the mass

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 8576e17..0f8beea 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -315,7 +315,8 @@ def mass_matrix(diagonal=True, burn_in=1000):
       inv = ssq / iteration
       eigw, eigv = jnp.linalg.eigh(ssq / iteration)
       # Todo: More effective computation
-      sqrt = jnp.matmul(jnp.transpose(eigv), jnp.matmul(jnp.diag(jnp.sqrt(eigw)), eigv))
+      # The mass is the inverse of the covariance
+      sqrt = jnp.matmul(eigv, jnp.matmul(jnp.diag(1 / jnp.sqrt(eigw)), jnp.transpose(eigv)))
     return inv, sqrt
 
   def init(sample: Array, init_cov: Array):
-- 
2.43.0


From c39a0f7e0e3570243832638bdc4a9b11a73fc6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 20/26] fix: mass adaption failed without an initial mass
 matrix

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 0f8beea..9bb5b57 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -134,7 +134,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-      init_flat = map(ravel_fn, init_args)
+      # Optional arguments might be omitted
+      init_flat = [None if arg is None else ravel_fn(arg) for arg in init_args]
       state = init(x0_flat, *init_flat, **init_kwargs)
 
       # Wrap the potential in a flatten function if potential is provided as
-- 
2.43.0


From 5c3eb697dd86a0cc883cbb1eeb088805bc4fd647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 21/26] fix: the Fisher information compared gradients of
 opposite sign

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 9bb5b57..cb723c0 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -415,7 +415,8 @@ def fisher_information(minibatch_potential: Callable = None,
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
         smp, mini_batch, likelihoods=True, state=model_state)
-      return likelihoods[obs_idx]
+      # The potential is the negative log-likelihood
+      return -likelihoods[obs_idx]
 
     grad_diff_idx = grad(potential_at_obs, argnums=0)
 
-- 
2.43.0


From 6b04c50691ce6cc67759eac23bf3bf76680beb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 22/26] fix: the full Fisher noise model returned vectors
 instead of matrices

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index cb723c0..9e0e533 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -452,8 +452,8 @@ def fisher_information(minibatch_potential: Callable = None,
       u_cb, s_cb, _ = jnp.linalg.svd(jnp.diag(friction) - b)
       u, s, _ = jnp.linalg.svd(b)
 
-      noise_scale = jnp.dot(u_cb, jnp.sqrt(s_cb))
-      scale = jnp.dot(u, jnp.sqrt(s))
+      noise_scale = jnp.dot(u_cb, jnp.diag(jnp.sqrt(s_cb)))
+      scale = jnp.dot(u, jnp.diag(jnp.sqrt(s)))
 
     return noise_scale, scale
 
-- 
2.43.0


From 7ce2ddcfbcd7abd7ea197f68949d34f27032e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 23/26] fix: batched likelihoods failed for batches of a single
 observation

---
 jax_sgmc/potential.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 2215471..74b3d48 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -139,7 +139,13 @@ def minibatch_potential(prior: Prior,
   # Define the strategies to evaluate the likelihoods sequantially, vectorized
   # or in parallel
   if is_batched:
-    batched_likelihood = stateful_likelihood
+    def batched_likelihood(state: PyTree,
+                           sample: PyTree,
+                           reference_data: PyTree):
+      lks, state = stateful_likelihood(state, sample, reference_data)
+      # A batch of a single observation must keep its batch dimension
+      batch_size = tree_util.tree_leaves(reference_data)[0].shape[0]
+      return jnp.reshape(lks, (batch_size,)), state
   elif strategy == 'map':
     def batched_likelihood(state: PyTree,
                            sample: PyTree,
-- 
2.43.0


From bf07167b5291530a3628c7fc8e33254287322977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 24/26] fix: Write npz files of samples with an entry named
 file

---
 jax_sgmc/io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 9608d55..167cb80 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -25,6 +25,7 @@
 
 import abc
 import itertools
+import zipfile
 
 from pathlib import Path
 from functools import partial
@@ -598,9 +599,13 @@ class MemoryCollector(DataCollector):
         output_dir = Path(self._dir)
         output_file = output_dir / f"chain_{chain_id}.npz"
         output_dir.mkdir(exist_ok=True)
-        onp.savez(
-          output_file,
-          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+        # The entries might have any name, but the names of the arguments of
+        # numpy.savez cannot be used as names of arrays.
+        with zipfile.ZipFile(output_file, "w") as archive:
+          for name, leaf in zip(self._leafnames[chain_id],
+                                self._samples[chain_id]):
+            with archive.open(f"{name}.npy", "w", force_zip64=True) as entry:
+              onp.lib.format.write_array(entry, leaf)
     finally:
       # The results must be returned even if writing the file failed
       self._finished[chain_id].release()
-- 
2.43.0


From 89f7f50989d91dc0eafd558b204433d49f6b029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 25/26] fix: Step sizes from first and last value for small
 rates of decay

---
 jax_sgmc/scheduler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 65d8e45..3a34a58 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -522,12 +522,11 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
 
   # Calculates the required coefficients of the polynomial
   def find_ab(its, gamma, first, last):
-    ginv = jnp.power(gamma, -1.0)
-    fpow = jnp.power(first, -ginv) # pylint: disable=E1130
-    lpow = jnp.power(last, -ginv) # pylint: disable=E1130
-    apow = jnp.divide(lpow - fpow, its - 1)
-    a = jnp.power(apow, -gamma)
-    b = jnp.power(jnp.divide(first, a), -ginv) # pylint: disable=E1130
+    # Only powers of the ratio are computed, as the powers of the step sizes
+    # itself leave the range of single precision for small decay rates
+    log_ratio = jnp.log(jnp.divide(first, last))
+    b = jnp.divide(its - 1, jnp.expm1(log_ratio / gamma))
+    a = first * jnp.power(b, gamma)
     return a, b
 
   def init_fn(iterations: int,
-- 
2.43.0


From 63f786f12e0d89fcf67d5906d9056d5e9021ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:15 +0000
Subject: [PATCH 26/26] fix: Reverse the momentum of rejected SGGMC proposals

---
 jax_sgmc/solver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index 36c9bcd..c938002 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -532,17 +532,18 @@ def sggmc(integrator_fn,
     slice = random.uniform(split)
 
     # If true, the step is accepted
-    mh_integrator_state, new_potential, mh_model_state = lax.cond(
+    mh_integrator_state, new_potential, direction, mh_model_state = lax.cond(
       jnp.log(slice) < log_alpha,
       lambda new_old: new_old[0],
       lambda new_old: new_old[1],
-      ((proposal, new_potential, new_model_state),
-       (state.integrator_state, state.potential,
+      ((proposal, new_potential, 1.0, new_model_state),
+       (state.integrator_state, state.potential, -1.0,
         state.integrator_state.model_state)))
 
     new_integrator_state = integrator.ObaboState(
       positions=mh_integrator_state.positions,
-      momentum=mh_integrator_state.momentum,
+      # The momentum must be reversed if the proposal is rejected
+      momentum=util.tree_scale(direction, mh_integrator_state.momentum),
       model_state=mh_model_state,
       potential=mh_integrator_state.potential,
       # These parameters must be provided from the updated state, otherwise
-- 
2.43.0

