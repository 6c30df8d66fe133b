From 2186791da1055eb1b7170be04bcb3e6e90b35af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 01/28] fix: scale the SGHMC noise by the square root of the
 friction

The injected noise must have covariance 2 * friction * step_size (arXiv:1402.4102,
eq. 13); it had 2 * friction**2 * step_size.
---
 jax_sgmc/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 09df0a3..90853f7 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -651,7 +651,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     else:
       noise_state = None
       scaled_noise = tree_scale(jnp.sqrt(2 * parameters.step_size), noise)
-      scaled_noise = tree_multiply(friction, scaled_noise)
+      sqrt_friction = tree_util.tree_map(jnp.sqrt, friction)
+      scaled_noise = tree_multiply(sqrt_friction, scaled_noise)
     new_momentum = tree_add(new_momentum, scaled_noise)
 
     new_state = LeapfrogState(
-- 
2.43.0


From dd65c2ebb183ca451102ddc1885244519e446fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 02/28] fix: accept a bare array as constant mass of the
 integrators

---
 jax_sgmc/integrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 90853f7..c907dd3 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -166,7 +166,7 @@ def obabo(potential_fn: StochasticPotential,
   stochastic_gradient = value_and_grad(potential_fn, argnums=0, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -375,7 +375,7 @@ def reversible_leapfrog(potential_fn: StochasticPotential,
   stochastic_gradient = grad(potential_fn, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -595,7 +595,7 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     init_noise_model, update_noise_model, get_noise_model = noise_model
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
-- 
2.43.0


From f075fc2c1f5e1172ffa84339288d2f4b730ff2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 03/28] fix: reverse the momentum of SGGMC when a proposal is
 rejected

The OBABO proposal keeps part of the momentum and is only reversible up to a
momentum flip. Without the flip a rejection does not leave the posterior
invariant (cf. AMAGOLD in the same file).
---
 jax_sgmc/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index d1db1d3..a133472 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -528,17 +528,17 @@ def sggmc(integrator_fn,
     slice = random.uniform(split)
 
     # If true, the step is accepted
-    mh_integrator_state, new_potential, mh_model_state = lax.cond(
+    mh_integrator_state, new_potential, direction, mh_model_state = lax.cond(
       jnp.log(slice) < log_alpha,
       lambda new_old: new_old[0],
       lambda new_old: new_old[1],
-      ((proposal, new_potential, new_model_state),
-       (state.integrator_state, state.potential,
+      ((proposal, new_potential, 1.0, new_model_state),
+       (state.integrator_state, state.potential, -1.0,
         state.integrator_state.model_state)))
 
     new_integrator_state = integrator.ObaboState(
       positions=mh_integrator_state.positions,
-      momentum=mh_integrator_state.momentum,
+      momentum=util.tree_scale(direction, mh_integrator_state.momentum),
       model_state=mh_model_state,
       potential=mh_integrator_state.potential,
       # These parameters must be provided from the updated state, otherwise
-- 
2.43.0


From 4fbed15cb25277326f9e1182892cd6e9aaa355cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 04/28] fix: scale the variance of the likelihoods to the
 stochastic potential

The swaps of parallel tempering are corrected by the variance of the stochastic
potential N * mean(likelihoods), which is N ** 2 / n times the variance of the
likelihoods of the n observations of the mini-batch.
---
 jax_sgmc/integrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index c907dd3..bddccd1 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -878,7 +878,10 @@ def langevin_diffusion(
       mini_batch,
       state=state.model_state,
       likelihoods=True)
-    variance = jnp.var(likelihoods)
+    # Variance of the stochastic potential N * mean(likelihoods)
+    _, batch_info = mini_batch
+    scale = batch_info.observation_count / batch_info.batch_size
+    variance = batch_info.observation_count * scale * jnp.var(likelihoods)
 
     scaled_gradient = tree_scale(-parameters.step_size, gradient)
     scaled_noise = tree_scale(
-- 
2.43.0


From c5a021eec3b69cf7099c9f1a9e8c203da55ce202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 05/28] fix: swap the chains of parallel tempering with the
 swap probability

The branches were interchanged, such that the chains swapped with probability
1 - s instead of s.
---
 jax_sgmc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index a133472..b099480 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -286,8 +286,8 @@ def parallel_tempering(integrator,
     # Swap the chains at random
     (normal_chain, hot_chain) = lax.cond(
       log_u < log_s,
-      lambda cold_hot: cold_hot,
       lambda cold_hot: (cold_hot[1], cold_hot[0]),
+      lambda cold_hot: cold_hot,
       (normal_chain, hot_chain))
 
     return (normal_chain, hot_chain, ssq_estimate, F, step, key), None
-- 
2.43.0


From 131d148a33130185500251f8ad276cea439d2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 06/28] fix: map over a dataset on the device with the
 requested batch size

full_reference_data passed the number of cached batches as batch size to the
device data loader.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index a478fc9..d77992c 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -550,7 +550,7 @@ def full_reference_data(data_loader: DataLoader,
       data_loader, cached_batches_count, mb_size)
   elif isinstance(data_loader, DeviceDataLoader):
     init_fn, (_batch_fn, mb_information), cleanup = _full_reference_data_device(
-      data_loader, cached_batches_count)
+      data_loader, mb_size)
   else:
     raise TypeError("The DataLoader must inherit from HostDataLoader or "
                     "DeviceDataLoader")
-- 
2.43.0


From 31629ad2bc3fa35663975c24adb59e38e0f09e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 07/28] fix: start each mapping over a dataset on the device at
 the same observation

If the batch size does not divide the observation count, the following mappings
returned the results of the observations in a rotated order. The data state
consists of arrays now, which full_data_mapper requires.
---
 jax_sgmc/data/core.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index d77992c..dd99bfa 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -934,19 +934,24 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"observation count. Given {offset} and "
                        f"{total_observations}.")
 
-    init_state = CacheState(current_line=offset)
+    # The state counts the batches of the current mapping, such that each
+    # mapping starts at the offset again.
+    init_state = CacheState(current_line=jnp.asarray(offset),
+                            state=jnp.asarray(0))
     return init_state
 
   def batch_fn(data_state: CacheState,
                information: bool = False,
                device_count: int = 1):
     del device_count
-    indices = jnp.mod(jnp.arange(mb_size) + data_state.current_line,
-                      total_observations)
+    start = data_state.current_line + data_state.state * mb_size
+    indices = jnp.mod(jnp.arange(mb_size) + start, total_observations)
 
-    # Update the offset, where to start slicing in the next iteration.
+    # Update the batch, where to continue slicing in the next iteration.
+    batches_count = -(-total_observations // mb_size)
     new_state = CacheState(
-      current_line=jnp.mod(indices[-1] + 1, total_observations))
+      current_line=data_state.current_line,
+      state=jnp.mod(data_state.state + 1, batches_count))
 
     selected_data = tree_index(reference_data, indices)
 
-- 
2.43.0


From 031dff8fac7f314d34f89d959eb71609d971f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 08/28] fix: carry a state through unbatched mappings of
 full_data_mapper

jnp.take_along_axis does not accept an integer index.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index dd99bfa..7dbacb9 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1103,7 +1103,7 @@ def full_data_mapper(data_loader: DataLoader = None,
             state = None
           else:
             state = tree_util.tree_map(
-              partial(jnp.take_along_axis, indices=0, axis=0),
+              lambda leaf: leaf[0],
               states)
           return results, state
 
-- 
2.43.0


From 14926e41543046347108911962fb59af67e9c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 09/28] fix: mark double samples in the batch information of
 ordered device data

The mask passed with the information marked all samples as valid, in contrast to
the host data loaders.
---
 jax_sgmc/data/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 7dbacb9..4edea56 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -956,7 +956,10 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
     selected_data = tree_index(reference_data, indices)
 
     if information:
-      return new_state, (selected_data, mb_info)
+      # Mark the samples returned double in the last batch
+      observations = data_state.state * mb_size + jnp.arange(mb_size)
+      info = mb_info._replace(mask=observations < total_observations)
+      return new_state, (selected_data, info)
     else:
       return new_state, selected_data
 
-- 
2.43.0


From 67d67161a8031a0074f12aace590ac0c3db77bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 10/28] fix: leave the checkpoint of a data loader unchanged
 when restoring it

Restoring emptied the checkpoint, and the restored chain changed the indices of
the checkpoint in place, such that it could not be restored again.
---
 jax_sgmc/data/numpy_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 02b84eb..9c79e31 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -217,12 +217,13 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     """
     # Restore the state by setting the random number generators to the
     # checkpointed state
-    type, value = data.popitem()
+    (type, value), = data.items()
     if type == 'random':
       rng_state, chain_data = value
       self._chains[chain_id]['rng'].bit_generator.state = rng_state
+      # The running chain changes its indices in place
       for key, value in chain_data.items():
-        self._chains[chain_id][key] = value
+        self._chains[chain_id][key] = deepcopy(value)
     elif type == 'ordered':
       self._chains[chain_id]['idx_offset'] = value
     else:
-- 
2.43.0


From ee5ecaf01addad37c0ade34a4082ab86c4ce46c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 11/28] fix: serve new data after warning about an invalid
 request

---
 jax_sgmc/data/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 4edea56..53990b4 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -447,9 +447,9 @@ class _Requests:
                       f"{chain_id}. This might be due to using a pmap in a "
                       f"jitted function. If the preservation ")
 
-      # The request is valid and the first request, so the results have to be
+      # This is the first request with the token, so the results have to be
       # stored in the cache
-      else:
+      if old_request is None:
         # Issue a new token and request data
         new_token = JaxUUID()
         callback_response = self._host_data_loaders[callback_uuid.as_uuid].get_batches(chain_id)
-- 
2.43.0


From 3b121841550ccf050c7d10c31e8a432785257948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 12/28] fix: support constant step sizes and single iterations
 in first-last schedule

---
 jax_sgmc/scheduler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e36ac60..7db4b4d 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -527,7 +527,11 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
-    a, b = find_ab(iterations, gamma, first, last)
+    if iterations == 1 or first == last:
+      # No unique polynomial connects the steps, so the step size is constant
+      a, b, gamma = first, 1.0, 0.0
+    else:
+      a, b = find_ab(iterations, gamma, first, last)
     init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
     return init_fn(iterations)
 
-- 
2.43.0


From 7554073f8da7e31973baae79074c84cfb7e2a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 13/28] fix: use the target acceptance rate given at
 initialization of the schedule

---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 7db4b4d..ebe33cf 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -422,7 +422,7 @@ def adaptive_step_size(burn_in = 0,
     m = iteration + 1
 
     h_bar *= (1 - 1/(m + t0))
-    h_bar += 1/(m + t0) * (target_acceptance_rate - acceptance_ratio)
+    h_bar += 1/(m + t0) * (alpha - acceptance_ratio)
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-- 
2.43.0


From 9838414a2ff72beb57f781a866dd326efbb4ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 14/28] fix: return the dict keys of a pytree in the order of
 its leaves

---
 jax_sgmc/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index bc07d97..4645395 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -170,9 +170,11 @@ def pytree_dict_keys(tree: PyTree):
       [('a', 'list_element_0'), ('a', 'list_element_1'), ('b',)]
 
   """
-  node = pytree_to_dict(tree)
-  leaves, treedef = tree_util.tree_flatten(node)
-  idx_tree = tree_util.tree_unflatten(treedef, list(range(len(leaves))))
+  # The order of the leaves can change by the transformation to a dict, so the
+  # leaves must be numbered before
+  leaves, treedef = tree_util.tree_flatten(tree)
+  idx_tree = pytree_to_dict(
+    tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
     if node is None:
-- 
2.43.0


From d8b7cc8a0c05bc2202e680b4d5c0350bc3d3518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 15/28] fix: skip empty containers in the dict keys of a pytree

---
 jax_sgmc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 4645395..134bbdf 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -177,7 +177,7 @@ def pytree_dict_keys(tree: PyTree):
     tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
-    if node is None:
+    if len(tree_util.tree_leaves(node)) == 0:
       return
     elif isinstance(node, int):
       key_list[node] = path
-- 
2.43.0


From c8efde5d5917393afc1a3f9d35437a27443ed908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 16/28] fix: return from the solver after the samples have been
 written to the npz file

---
 jax_sgmc/io.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 134bbdf..641cb4a 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -583,14 +583,17 @@ class MemoryCollector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    self._finished[chain_id].release()
-    if self._dir:
-      output_dir = Path(self._dir)
-      output_file = output_dir / f"chain_{chain_id}.npz"
-      output_dir.mkdir(exist_ok=True)
-      onp.savez(
-        output_file,
-        **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    try:
+      if self._dir:
+        output_dir = Path(self._dir)
+        output_file = output_dir / f"chain_{chain_id}.npz"
+        output_dir.mkdir(exist_ok=True)
+        onp.savez(
+          output_file,
+          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    finally:
+      # The file must be complete before the solver returns
+      self._finished[chain_id].release()
 
   def finished(self, chain_id):
     """Returns samples after all data has been processed.
-- 
2.43.0


From 4f293bff37fb9d93930b9f68a7f87c2f1146f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 17/28] fix: wait until all samples have been written to the
 hdf5 file

---
 jax_sgmc/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 641cb4a..745a175 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -412,7 +412,7 @@ class HDF5Collector(DataCollector):
 
   def __init__(self, file: HDF5File):
     assert h5py is not None, "h5py must be installed to use this DataCollector."
-    # Barrier to wait until all data has been processed
+    # Events to wait until all data has been processed
     self._finished = []
     self._sample_count = []
     self._leaf_names = []
@@ -457,7 +457,7 @@ class HDF5Collector(DataCollector):
         dtype=leaf.dtype)
     self._sample_count.append(0)
     self._leaf_names.append(leaf_names)
-    self._finished.append(threading.Barrier(2))
+    self._finished.append(threading.Event())
     return chain_id
 
   def save(self, chain_id: int, values):
@@ -480,7 +480,7 @@ class HDF5Collector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].set()
 
   def checkpoint(self, chain_id: int, state):
     """Called every nth step. """
@@ -492,14 +492,14 @@ class HDF5Collector(DataCollector):
     """Returns after everything has been written to the file.
 
     Finalize is scheduled via host_callback and finished is called in the normal
-    python flow. Via a barrier it is possible to pause the program flow until
+    python flow. Via an event it is possible to pause the program flow until
     all asynchronously saved data has been processed.
 
     Args:
       chain_id: ID of chain requesting continuation of normal program flow.
 
     """
-    # self._finished[chain_id].wait()
+    self._finished[chain_id].wait()
 
 class MemoryCollector(DataCollector):
   """Stores samples entirely in RAM (numpy arrays).
-- 
2.43.0


From ef4434fb9a6e0c5bcb0a610bf675bc8cb0aca10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 18/28] fix: discard samples which should not be kept when
 saving vectorized chains

---
 jax_sgmc/io.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 745a175..555e499 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -689,22 +689,25 @@ def save(data_collector: DataCollector = None,
   # Helper functions for host_callback
 
   def _save(data, *unused_args):
-    chain_ids, data = data
+    chain_ids, keep, data = data
 
-    # id_tap sends batched arguments to the host
+    # id_tap sends batched arguments to the host, also for the chains discarding
+    # their sample, because cond is replaced by select under vmap
     if chain_ids.ndim == 0:
       data_collector.save(chain_ids, data)
     else:
+      keep = onp.broadcast_to(keep, chain_ids.shape)
       for idx, chain_id in enumerate(chain_ids):
-        data_collector.save(chain_id, [leaf[idx] for leaf in data])
+        if keep[idx]:
+          data_collector.save(chain_id, [leaf[idx] for leaf in data])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
     # used to avoid losing the call to Jax's optimizations.
     # Only return the leaves, as tree structure is redundant and requires
     # flattening on the host.
-    chain_id, data = args
-    flat_args = (chain_id, tree_util.tree_leaves(data))
+    chain_id, keep, data = args
+    flat_args = (chain_id, keep, tree_util.tree_leaves(data))
     counter = host_callback.id_tap(_save, flat_args, result=1)
     return counter
 
@@ -737,7 +740,7 @@ def save(data_collector: DataCollector = None,
     return lax.cond(keep,
                     _save_wrapper,
                     lambda *args: 0,
-                    (state.chain_id, sample))
+                    (state.chain_id, keep, sample))
 
   # Todo: Generalize the saving by contracting the scheduler state and the
   #       solver state to a single checkpointing state.
-- 
2.43.0


From d5698bcc189e8eaaebd0f8fc52aa52b95a0b4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 19/28] fix: adapt the mass matrix without an initial
 covariance

---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 8576e17..a2ecd53 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -134,7 +134,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-      init_flat = map(ravel_fn, init_args)
+      # Optional arguments which are not provided should not be flattened
+      init_flat = [None if arg is None else ravel_fn(arg) for arg in init_args]
       state = init(x0_flat, *init_flat, **init_kwargs)
 
       # Wrap the potential in a flatten function if potential is provided as
-- 
2.43.0


From f13bf64511ed34e1d163f16f037b605334fc6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 20/28] fix: use the square root of the mass instead of the
 covariance

---
 jax_sgmc/adaption.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index a2ecd53..6802646 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -316,7 +316,9 @@ def mass_matrix(diagonal=True, burn_in=1000):
       inv = ssq / iteration
       eigw, eigv = jnp.linalg.eigh(ssq / iteration)
       # Todo: More effective computation
-      sqrt = jnp.matmul(jnp.transpose(eigv), jnp.matmul(jnp.diag(jnp.sqrt(eigw)), eigv))
+      # The mass matrix is the inverse of the covariance
+      sqrt = jnp.matmul(
+        eigv, jnp.matmul(jnp.diag(1 / jnp.sqrt(eigw)), jnp.transpose(eigv)))
     return inv, sqrt
 
   def init(sample: Array, init_cov: Array):
-- 
2.43.0


From 7af776aa3e55f3183707788c68df0bc6e53786dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 21/28] fix: center the likelihood gradients in the empirical
 fisher information

---
 jax_sgmc/adaption.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 6802646..c28f949 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -404,15 +404,11 @@ def fisher_information(minibatch_potential: Callable = None,
           step_size: Any = jnp.array(1.0),
           model_state: PyTree = None,
           **kwargs: Any):
-    del state, args, kwargs
+    del state, sample_grad, args, kwargs
 
     _, mb_information = mini_batch
-    N = mb_information.observation_count
     n = mb_information.batch_size
 
-    # Unscale the gradient to get mean
-    sample_grad /= N
-
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
         smp, mini_batch, likelihoods=True, state=model_state)
@@ -420,15 +416,14 @@ def fisher_information(minibatch_potential: Callable = None,
 
     grad_diff_idx = grad(potential_at_obs, argnums=0)
 
-    @functools.partial(vmap, out_axes=0)
-    def sqd(idx):
-      if diagonal:
-        return jnp.square(grad_diff_idx(sample, idx) - sample_grad)
-      else:
-        diff = grad_diff_idx(sample, idx) - sample_grad
-        return jnp.outer(diff, diff)
-
-    ssq = jnp.sum(sqd(jnp.arange(mb_information.batch_size)), axis=0)
+    # Deviations of the gradients from their mean. The gradient of the potential
+    # has the opposite sign and contains the prior.
+    grads = vmap(functools.partial(grad_diff_idx, sample))(jnp.arange(n))
+    diffs = grads - jnp.mean(grads, axis=0)
+    if diagonal:
+      ssq = jnp.sum(jnp.square(diffs), axis=0)
+    else:
+      ssq = jnp.matmul(jnp.transpose(diffs), diffs)
 
     if diagonal:
       v = 1 / (n - 1) * ssq
-- 
2.43.0


From acfe61551f759e110cf29b1887245032b4507afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 22/28] fix: return the square roots of dense noise models as
 matrices

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index c28f949..6c26b69 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -447,8 +447,8 @@ def fisher_information(minibatch_potential: Callable = None,
       u_cb, s_cb, _ = jnp.linalg.svd(jnp.diag(friction) - b)
       u, s, _ = jnp.linalg.svd(b)
 
-      noise_scale = jnp.dot(u_cb, jnp.sqrt(s_cb))
-      scale = jnp.dot(u, jnp.sqrt(s))
+      noise_scale = jnp.dot(u_cb, jnp.diag(jnp.sqrt(s_cb)))
+      scale = jnp.dot(u, jnp.diag(jnp.sqrt(s)))
 
     return noise_scale, scale
 
-- 
2.43.0


From 0e2ab570938411e65ee84e1d75c44ac25df7395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 23/28] fix: report the progress of vectorized chains

---
 jax_sgmc/scheduler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index ebe33cf..5bd6f94 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -25,6 +25,7 @@ schedulers.
 from collections import namedtuple
 from typing import Callable, Tuple
 
+import numpy as onp
 import jax.numpy as jnp
 from jax import lax
 from jax import random
@@ -309,12 +310,15 @@ def _progress_bar(burn_in: specific_scheduler,
   """
 
   def _print_fn(info, _):
-    percentage = round(
-      int(info['current_iteration']) / int(info['total_iterations']) * 100)
-    total_samples = int(info["total_samples"])
-    collected_samples = int(info["collected_samples"])
-    current_iteration = int(info["current_iteration"])
-    total_iterations = int(info["total_iterations"])
+    # Vectorized chains report together, show the progress of the first one
+    def first(value):
+      return int(onp.ravel(value)[0])
+
+    total_samples = first(info["total_samples"])
+    collected_samples = first(info["collected_samples"])
+    current_iteration = first(info["current_iteration"])
+    total_iterations = first(info["total_iterations"])
+    percentage = round(current_iteration / total_iterations * 100)
 
     print(f"[Step {current_iteration}/{total_iterations}]"
           f"({percentage}%) Collected {collected_samples} of "
-- 
2.43.0


From 254a914f6e5b13e797ae42d623033cd89849d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 24/28] fix: start the chains of the ready-made samplers with
 different keys

---
 jax_sgmc/alias.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/jax_sgmc/alias.py b/jax_sgmc/alias.py
index 46da60b..4406858 100644
--- a/jax_sgmc/alias.py
+++ b/jax_sgmc/alias.py
@@ -23,6 +23,8 @@ import warnings
 from functools import partial
 from typing import Any, Union
 
+from jax import random
+
 from jax_sgmc import data, potential, adaption, integrator, scheduler, solver, io
 
 Pytree = Any
@@ -115,7 +117,9 @@ def sgld(potential_fn: potential.minibatch_potential,
         'lmbd': lmbd,
       },
       init_model_state=init_model_state)
-    states = map(init_with_adaption_kwargs, init_samples)
+    # Chains with equal keys would all add the same noise
+    states = [init_with_adaption_kwargs(init_sample, key=random.PRNGKey(idx))
+              for idx, init_sample in enumerate(init_samples)]
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -201,7 +205,9 @@ def re_sgld(potential_fn: potential.minibatch_potential,
     init_resgld_fn = partial(
       resgld_solver[0],
       init_model_state=init_model_state)
-    states = map(init_resgld_fn, *zip(*init_samples))
+    # Chains with equal keys would all add the same noise
+    states = [init_resgld_fn(*samples, key=random.PRNGKey(idx))
+              for idx, samples in enumerate(init_samples)]
     return mcmc(*states,
                 iterations=iterations,
                 schedulers=[{'temperature': {'tau': temperature}}])
@@ -323,7 +329,9 @@ def amagold(stochastic_potential_fn: potential.StochasticPotential,
     init_amagold_fn = partial(
       amagold_solver[0],
       init_model_state = init_model_state)
-    states = map(init_amagold_fn, init_samples)
+    # Chains with equal keys would all add the same noise
+    states = [init_amagold_fn(init_sample, key=random.PRNGKey(idx))
+              for idx, init_sample in enumerate(init_samples)]
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -444,7 +452,9 @@ def sggmc(stochastic_potential_fn: potential.StochasticPotential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations=1000):
     init_sggmc_fn = partial(sggmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sggmc_fn, init_samples)
+    # Chains with equal keys would all add the same noise
+    states = [init_sggmc_fn(init_sample, key=random.PRNGKey(idx))
+              for idx, init_sample in enumerate(init_samples)]
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -535,7 +545,9 @@ def sghmc(potential_fn: potential.minibatch_potential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations = 1000):
     init_sghmc_fn = partial(sghmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sghmc_fn, init_samples)
+    # Chains with equal keys would all add the same noise
+    states = [init_sghmc_fn(init_sample, key=random.PRNGKey(idx))
+              for idx, init_sample in enumerate(init_samples)]
     return mcmc(*states, iterations=iterations)
   return run_fn
 
@@ -614,6 +626,8 @@ def obabo(potential_fn: potential.minibatch_potential,
 
   def run_fn(*init_samples, init_model_state: Pytree = None, iterations = 1000):
     init_sghmc_fn = partial(sghmc_solver[0], init_model_state=init_model_state)
-    states = map(init_sghmc_fn, init_samples)
+    # Chains with equal keys would all add the same noise
+    states = [init_sghmc_fn(init_sample, key=random.PRNGKey(idx))
+              for idx, init_sample in enumerate(init_samples)]
     return mcmc(*states, iterations=iterations)
   return run_fn
-- 
2.43.0


From 8990c6fd424a7355fa3f9a0d9a29fa63175535a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:00 +0000
Subject: [PATCH 25/28] fix: keep the axis of the observations for batched
 likelihoods of one observation

---
 jax_sgmc/potential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 2215471..009d5b6 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -133,6 +133,9 @@ def minibatch_potential(prior: Prior,
     else:
       lks = likelihood(sample, reference_data)
       state = None
+    if is_batched:
+      # The axis of the observations is kept, also for a single observation
+      return jnp.reshape(lks, (-1,)), state
     # Ensure that a scalar is returned to avoid broadcasting with mask
     return jnp.squeeze(lks), state
 
-- 
2.43.0


From e8b11929663324a6fa4e66bdfa0164e7229a3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:00 +0000
Subject: [PATCH 26/28] fix: allow integer decay constants of the step size
 schedules

---
 jax_sgmc/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 5bd6f94..1032744 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -430,7 +430,8 @@ def adaptive_step_size(burn_in = 0,
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-    lr = jnp.power(m, -kappa)
+    # Integers cannot be raised to negative powers
+    lr = jnp.power(1.0 * m, -kappa)
 
     x_bar_old = x_bar
     x_bar *= (1 - lr)
@@ -480,7 +481,8 @@ def polynomial_step_size(a: Array = 1.0,
     assert b > 0, f"b must be greater than zero: b = {b}"
 
     n = jnp.arange(iterations)
-    unscaled = jnp.power(b + n, -gamma)
+    # Integers cannot be raised to negative powers
+    unscaled = jnp.power(1.0 * (b + n), -gamma)
     scaled = jnp.multiply(a, unscaled)
     return scaled
 
-- 
2.43.0


From ba31cd24088ae2b20f4ef6bef2bdc2f028d35d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:00 +0000
Subject: [PATCH 27/28] fix: allow to save no samples on the device

---
 jax_sgmc/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 555e499..0b74d75 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -844,6 +844,9 @@ def no_save() -> Saving:
     return saving_state(chain_id=0, saved_samples=0, data=init_data)
 
   def _update_data_leaf(idx, data_leaf, new_slice):
+    if data_leaf.shape[0] == 0:
+      # The schedule does not keep any sample
+      return data_leaf
     return data_leaf.at[idx].set(new_slice)
 
   def _save_sample(args):
-- 
2.43.0


From e940aa9315371920e5dd6e5ef51ec7b9ff6be37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:05 +0000
Subject: [PATCH 28/28] fix: never accept proposals without a well-defined
 energy

---
 jax_sgmc/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index b099480..c194851 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -383,6 +383,8 @@ def amagold(integrator_fn,
 
     # Limit acceptance ratio to 1.0
     log_alpha = state.potential - new_potential + proposal.potential
+    # A proposal without a well-defined energy is never accepted.
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
     slice = random.uniform(split)
 
@@ -521,6 +523,8 @@ def sggmc(integrator_fn,
     log_alpha = - 1.0 / schedule.temperature * (
       new_potential - state.potential
       + proposal.kinetic_energy_end - proposal.kinetic_energy_start)
+    # A proposal without a well-defined energy is never accepted.
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     # Limit the probability to 1.0 to ensure correct calculation of acceptance
     # ratio statistics.
     log_alpha = jnp.where(log_alpha <= 0, log_alpha, 0.0)
-- 
2.43.0

