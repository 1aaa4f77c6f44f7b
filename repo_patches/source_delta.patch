From a88264d7e5e790634ca3b340e1345edff6f64a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:59 +0000
Subject: [PATCH 01/92] fix: fire before_next_day callbacks also when the month
 changes

---
 demod/simulators/base_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 444448e..b242b4d 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -927,7 +927,7 @@ class Callbacks():
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
             next_datetime = self.current_time + self.step_size
-            if next_datetime.day > self.current_time.day:
+            if next_datetime.day != self.current_time.day:
                 self.on_before_next_day()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -986,7 +986,7 @@ class Callbacks():
 # TODO: remove the following once backward compatibility is ensured
 def before_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        if (self.current_time + self.step_size).day > self.current_time.day:
+        if (self.current_time + self.step_size).day != self.current_time.day:
             self.on_before_next_day()
         return step_method(self, *args, **kwargs)
     return decorated_step
-- 
2.43.0


From 6e44f06523cce87067b2c51c3c6f906e9f14bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 02/92] fix: reject sparse TPM inputs whose lengths differ

---
 demod/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d91c90..dd9a0cf 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -72,8 +72,8 @@ class SparseTPM():
         length = len(times)
         if not (
                 length == len(inds_from)
-                & length == len(inds_to)
-                & length == len(values)):
+                and length == len(inds_to)
+                and length == len(values)):
             raise ValueError('Inputs must match in length')
         self.times = np.array(times, dtype=np.uint16)
         self.inds_from = np.array(inds_from, dtype=np.uint16)
-- 
2.43.0


From d88aa84bc0ac462582a93360eab8faf578ca20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 03/92] fix: do not overwrite the caller's states when handling
 dead states of a sparse TPM

---
 demod/utils/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index dd9a0cf..4755360 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -188,6 +188,7 @@ class SparseTPM():
             warnings.warn('Are some dead states at step {}'.format(time))
             if self.dead_state_value is not None:
                 # change the dead states and resample a montecarlo draw
+                states = np.array(states)
                 states[
                     ~np.isin(states, self.inds_from[mask])
                 ] = self.dead_state_value
-- 
2.43.0


From e57bf99d4aabd05426d1b2ffa77502d7e8307686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 04/92] fix: sample sparse TPMs correctly when transitions are
 not sorted by origin state

---
 demod/utils/sparse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4755360..41699ee 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -195,7 +195,9 @@ class SparseTPM():
                 return self.sparse_monte_carlo(time, states)
 
         # compute a flattened cdf containing all the states cdf
-        flattened_cdf = np.cumsum(self.values[mask])
+        # (the states must follow each other in the order of pdf_indices)
+        order = np.argsort(self.inds_from[mask], kind='stable')
+        flattened_cdf = np.cumsum(self.values[mask][order])
         # print('cdf',flattened_cdf)
 
         # monte carlo part
@@ -203,7 +205,8 @@ class SparseTPM():
         rand = np.random.uniform(size=states.shape) + inv
         # print('r', rand)
         # look for the position in the array
-        new_states = self.inds_to[mask][np.searchsorted(flattened_cdf, rand)]
+        new_states = self.inds_to[mask][order][
+            np.searchsorted(flattened_cdf, rand)]
         # print('new states', new_states)
         return np.array(new_states)
 
-- 
2.43.0


From b084b2e542339fe46cbff670430cb0a0262d2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 05/92] fix: keep sizes and dead state when saving and loading
 a sparse TPM

---
 demod/utils/sparse.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 41699ee..68e2328 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -6,6 +6,7 @@ Very useful when the TPMs are large and have a lot of 0 values in them.
 from __future__ import annotations
 
 from typing import Tuple
+import os
 import warnings
 import numpy as np
 
@@ -222,6 +223,11 @@ class SparseTPM():
         np.save(path+'_tpm_inds_from', self.inds_from)
         np.save(path+'_tpm_inds_to', self.inds_to)
         np.save(path+'_tpm_values', self.values)
+        # sizes and dead state cannot be found back from the transitions
+        np.save(path+'_tpm_meta', np.array([
+            self.n_states, self.n_times,
+            -1 if self.dead_state_value is None else self.dead_state_value
+        ]))
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
@@ -239,4 +245,11 @@ class SparseTPM():
         inds_from = np.load(path+'_tpm_inds_from.npy', )
         inds_to = np.load(path+'_tpm_inds_to.npy', )
         values = np.load(path+'_tpm_values.npy', )
-        return SparseTPM(times, inds_from, inds_to, values)
+        if not os.path.exists(path+'_tpm_meta.npy'):
+            # saved before the sizes were stored
+            return SparseTPM(times, inds_from, inds_to, values)
+        n_states, n_times, dead_state = np.load(path+'_tpm_meta.npy').tolist()
+        return SparseTPM(
+            times, inds_from, inds_to, values, n_states, n_times,
+            None if dead_state < 0 else dead_state
+        )
-- 
2.43.0


From 6b38a7c07d4458f0681eb7a2ed5626552358b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 06/92] fix: index the counts of states_to_tpms with a tuple

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9faa4e7..b84a2df 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -646,7 +646,7 @@ def states_to_tpms(
             axis=1, return_counts=True
         )
         # converts the indexes for accessing the matrix later
-        states_indices = [(i) for i in states_indices]
+        states_indices = tuple(states_indices)
 
         # compute the sum of the transitions for each states
         transition_matrice = np.full((n_states, n_states), 0)
-- 
2.43.0


From 72cfff4a19b1c2387b2df2c942afc8e7684abe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 07/92] fix: accept a one dimensional profile in load_duration

---
 demod/metrics/loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index ed79f54..aaf8c7b 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -251,7 +251,7 @@ def load_duration(
 
     if len(profiles.shape) == 1:
         # One dimensional input gets rearranged
-        profiles.reshape((1, -1))
+        profiles = profiles.reshape((1, -1))
 
     # First finds where the load is higher than loads
     mask_high = profiles[:, :, np.newaxis] >= loads[np.newaxis, np.newaxis, :]
-- 
2.43.0


From fd58a393ecc26092cbd1a27b544e1e88af6cd645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 08/92] fix: bin normalized changes in demand from 0 to 1

---
 demod/metrics/loads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index aaf8c7b..78beacb 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -176,7 +176,8 @@ def cumulative_changes_in_demand(
     max_change = np.max(changes)
 
     if normalize:
-        changes /= max_change
+        changes = changes / max_change
+        max_change = 1.
     if bin_edges is None:
         # Use linearly spaced bin_edges
         hist, bin_edges = np.histogram(
-- 
2.43.0


From 0074b28df3b03f7ccfc5a74958b301f7324eae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 09/92] fix: count every change in demand in the user specified
 bins

---
 demod/metrics/loads.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index 78beacb..b15d09b 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -185,10 +185,10 @@ def cumulative_changes_in_demand(
         )
     else:
         # Use the user specified bin_edges
-        if max_change >= bin_edges[-1]:
+        if max_change > bin_edges[-1]:
             raise ValueError((
                 "bin_edges largest value is {}, which is too small for the "
-                "largest value change {}. (must be striclty greater)."
+                "largest value change {}. (must be greater or equal)."
             ).format(bin_edges[-1], max_change))
         if np.min(changes) < bin_edges[0]:
             raise ValueError((
@@ -196,9 +196,7 @@ def cumulative_changes_in_demand(
                 "smallest value change {}. (must be smaller or equal)."
             ).format(bin_edges[0], np.min(changes)))
         # Counts where the transtions are in the bin_edges
-        hist = np.bincount(
-            np.searchsorted(bin_edges, changes)
-        )[1:]
+        hist, _ = np.histogram(changes, bins=bin_edges)
     # Convert to cdf
     return np.cumsum(hist/np.sum(hist)), bin_edges
 
-- 
2.43.0


From ed094fc5aae20b316d385cb2602fcae015e38241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 10/92] fix: get_states_durations of patterns without any
 transition

---
 demod/metrics/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index e6fcdbb..476b286 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -44,7 +44,8 @@ def get_states_durations(states: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     # find in the indices the start and end of each household
     indices_first_household = np.where(
         household_indices != np.roll(household_indices, 1)
-    )[0] if len(np.unique(household_indices)) > 1 else np.array([0], dtype=int)
+    )[0] if len(np.unique(household_indices)) > 1 else np.arange(
+        min(1, len(household_indices)))
     indices_last_household = np.roll(indices_first_household - 1, -1)
 
     # calculate the durations
-- 
2.43.0


From 8aa365f5aed885cef216d12481d5ebb871e3ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 11/92] fix: compare durations of states present in only one of
 the data

---
 demod/metrics/states.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 476b286..0fdc422 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -357,13 +357,13 @@ def state_duration_distribution_metric(
     # Each state is handled separately
     for state in set((*dur_dict_sim.keys(), *dur_dict_mes.keys())):
         # Finds the cdf of the duration for that state
-        cdf_sim = np.cumsum(
-            np.bincount(dur_dict_sim[state], minlength=n_times + 1)
-            / len(dur_dict_sim[state])
-        )
-        cdf_mes = np.cumsum(
-            np.bincount(dur_dict_mes[state], minlength=n_times + 1)
-            / len(dur_dict_mes[state])
+        # (a state that never occurs in one of the data has a null cdf)
+        cdf_sim, cdf_mes = (
+            np.cumsum(
+                np.bincount(dur_dict[state], minlength=n_times + 1)
+                / len(dur_dict[state])
+            ) if state in dur_dict else np.zeros(n_times + 1)
+            for dur_dict in (dur_dict_sim, dur_dict_mes)
         )
         # Error between cdfs
         err = np.abs(cdf_sim - cdf_mes)
-- 
2.43.0


From 595955b175316f2cce35ca276959d73a2a8e7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:18 +0000
Subject: [PATCH 12/92] fix: network_size counts the unique nodes

---
 demod/metrics/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 0fdc422..e9d393a 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -197,7 +197,8 @@ def graph_metrics(
     )
     edge_weights = np.array(directed_edges)[times, source_nodes, end_nodes]
 
-    network_size = len(np.unique(np.c_[source_nodes_id, end_nodes_id]))
+    # every node is the end of some edge
+    network_size = len(np.unique(end_nodes_id))
     network_density = len(source_nodes_id) / (
         # used nodes / the max number of nodes possible
         (len(directed_edges)-1) * len(np.unique(source_nodes))**2
-- 
2.43.0


From 0de24795448068c91a5eec319b7f7fe9a6e46a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 13/92] fix: sample_population returns one count per value
 despite roundoff of the pdf

---
 demod/simulators/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 2293c74..c7452ef 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -107,6 +107,8 @@ def sample_population(
     """
     cdf = np.cumsum(pdf)
     check_valid_cdf(cdf)
+    # make sure roundoff errors do not leave samples after the last value
+    cdf = cdf / cdf[-1]
     if population_sampling_algo == 'real_population':
         lin_space = np.linspace(0, 1, n_samples)
         inds = np.searchsorted(cdf, lin_space)
-- 
2.43.0


From 6e1c0d347be29d5a6857655c09f773cd6c752794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 14/92] fix: sample_population never picks a first value of
 probability zero

---
 demod/simulators/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index c7452ef..c499b98 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -111,7 +111,9 @@ def sample_population(
     cdf = cdf / cdf[-1]
     if population_sampling_algo == 'real_population':
         lin_space = np.linspace(0, 1, n_samples)
-        inds = np.searchsorted(cdf, lin_space)
+        # the sample at 0 belongs to the first value that is possible
+        inds = np.maximum(
+            np.searchsorted(cdf, lin_space), np.argmax(cdf > 0))
     elif population_sampling_algo == 'monte_carlo':
         inds = monte_carlo_from_1d_cdf(cdf, n_samples=n_samples)
     else:
-- 
2.43.0


From 1daba1452e25d040386e27a70ca59e76c1b1f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 15/92] fix: attribute secondary state transitions to the
 persons making them

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index b84a2df..8a81205 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -159,8 +159,8 @@ def states_to_transitions_secondary(
         transition_times.append(
             np.full(np.sum(mask_transition_p) + np.sum(mask_transition_s), i)
         )
-        transition_person.append(np.where(mask_transition_s)[0])
         transition_person.append(np.where(mask_transition_p)[0])
+        transition_person.append(np.where(mask_transition_s)[0])
         transition_new_state.append(np.array(p[mask_transition_p]))
         transition_new_state.append(np.array(s[mask_transition_s]))
         transition_old_state.append(np.array(old_p_states[mask_transition_p]))
-- 
2.43.0


From 390d7102668d95f7d96024bbfa476d4586fd8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 16/92] fix: Markov simulators initialize their states before
 stepping or logging

---
 demod/simulators/activity_simulators.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 4a8a00f..1f4e3b1 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -169,7 +169,12 @@ class MarkovChain1rstOrder(Simulator):
             AssertionError:
                 If the parameters have wrong types or shapes
         """
+        self._initialize_states(starting_state_pdf, checkcdf)
         super().initialize_starting_state(start_time_step=start_time_step)
+
+    def _initialize_states(
+        self, starting_state_pdf: np.ndarray, checkcdf: bool
+    ) -> None:
         # generates from the distribution of states
         assert len(starting_state_pdf) == self.n_states, (
             'the starting states'
@@ -389,17 +394,16 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             AssertionError
                 If the parameters have wrong types or shapes
         """
-        super().initialize_starting_state(
-            starting_state_pdf,
-            start_time_step=start_time_step,
-            checkcdf=checkcdf,
-        )
+        self._initialize_states(starting_state_pdf, checkcdf)
         # Adds the time based
         self.times_left = monte_carlo_from_pdf(
             # Get the pdf of times left corresponding to each current states
             starting_durations_pdfs[self.current_states, :]
         ) - 1  # Duration are uploaded after step, and changed when == 0
         self._set_duration_pdfs(self.duration_pdfs)
+        Simulator.initialize_starting_state(
+            self, start_time_step=start_time_step
+        )
 
     def _set_duration_pdfs(
         self, duration_pdfs: np.ndarray, checkcdf: bool = True,
-- 
2.43.0


From d7cddaba369036e0cc09966f31d2595636940db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 17/92] fix: semi-Markov simulator logs and caches the states
 after the step

---
 demod/simulators/activity_simulators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 1f4e3b1..d781089 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -447,9 +447,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         Then it updates the new states of these subjects, and from that
         it samples the duration of that new state.
         """
-        # Bypass the first order change of states
-        Simulator.step(self)
-
         mask_change_state = self.times_left < 1
         previous_change_states = self.current_states[mask_change_state]
         # draw a montecarlo estimate on the current time
@@ -477,6 +474,8 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             )
         # update the time
         self.times_left -= 1
+        # Bypass the first order change of states
+        Simulator.step(self)
 
 
 class SubgroupsIndividualsActivitySimulator(
-- 
2.43.0


From bf9a5300cd08b7005da6b5efee7b39431c7397f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 18/92] fix: sparse simulator logs and caches the states after
 the step

---
 demod/simulators/sparse_simulators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 7f1f9c6..27049e5 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -295,16 +295,16 @@ class SparseStatesSimulator(Simulator):
             ):  # if it has been reinitialized
                 self.update_new_day()
 
-        # update the time step
-        super().step()
-
         # draw a montecarlo estimate on the current time
 
         self.current_states = self.tpm.sparse_monte_carlo(
-            self.current_time_step - 1,  # -1 because it was already updated
+            self.current_time_step,
             self.current_states,
         )
 
+        # update the time step
+        super().step()
+
 
 class SparseActivitySimulator(SparseStatesSimulator):
     """Should be able to simulate any kind of activitys.
-- 
2.43.0


From 965cea223ef56a0f6c29bc1a8bbb51e171be6d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 19/92] fix: sparse simulator keeps its datetime during
 initialization

---
 demod/simulators/sparse_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 27049e5..93ad3df 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -151,6 +151,8 @@ class SparseStatesSimulator(Simulator):
             start_datetimestep = self._getstart_time_step_from_datetime(
                 start_datetime
             )
+            # the initialization starts at 4 am of the current diary day
+            self.time -= start_datetimestep * datetime.timedelta(minutes=10)
         else:
             start_datetimestep = 0
 
-- 
2.43.0


From 36b51af02084ca67d44c47203ebf58d0fcfdad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 20/92] fix: sparse simulator uses quarters from 1 to 4

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 93ad3df..9366280 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -543,7 +543,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
 
         # update the quarter if required
         if self.use_quarters:
-            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3
+            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3 + 1
         else:
             self.subgroup_kwargs["quarter"] = None
 
-- 
2.43.0


From e4565a2bd726de6361d0a249f353213e2861639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 21/92] fix: lost states of the sparse simulator get the first
 state, not its label

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 9366280..b0a27f7 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -577,7 +577,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
         #     'out of : ', len(old_labels_position_in_new) )
         # TODO: change the assignement of too dangerous
         mask_lost_transition = old_labels_position_in_new == -1
-        old_labels_position_in_new[mask_lost_transition] = labels[0]
+        old_labels_position_in_new[mask_lost_transition] = 0
 
         # convert states to the new ones
         self.current_states = old_labels_position_in_new[inverse].reshape(-1)
-- 
2.43.0


From 0641bbd95dfdca7b8985d0c1a7979d2825a23590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 22/92] fix: daily TPM update keeps the TPMs aligned with the
 time of day

---
 demod/simulators/activity_simulators.py |  4 ++--
 demod/simulators/crest_simulators.py    | 11 +++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index d781089..5dd47a6 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -859,13 +859,13 @@ class SubgroupsIndividualsActivitySimulator(
     def get_performing_activity(self, activity_name: str) -> np.ndarray:
         return self.get_n_doing_activity(activity_name)
 
-    @ Callbacks.after_refresh_time
+    @ Callbacks.before_refresh_time
     def step(self) -> None:
         """Update the simulator."""
         # Simply calls the parents (Multi for the sims and TimeAware for time)
         return super().step()
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the tpms."""
         # Check if we want to update the tpms
         if self.time_aware:
diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0fa39bc..985cba9 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -307,13 +307,12 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             initialization_time=self.data.refresh_time,
         )
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the TPMs for the new daytype.
 
-        Note:
-            It was deduced that the change of TPM must be perform after
-            midnight, as deduction seem to make think that the first
-            TPM is for the transition 00:00 -> 00:10.
+        Performed before the first step of the day, so that the TPMs of
+        the new day are used at the same times of day as the ones they
+        replace.
         """
         day_type = "d" if self.current_time.isoweekday() <= 5 else "e"
         if day_type != self.current_day_type:
@@ -335,7 +334,7 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             [sim.state_labels[sim.current_states] for sim in self.simulators]
         )
 
-    @Callbacks.after_refresh_time
+    @Callbacks.before_refresh_time
     def step(self) -> None:
         """Updates the states of the residents."""
         return super().step()
-- 
2.43.0


From fb563060faad39c696b5658cb877bdfd5c02c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 23/92] fix: CREST transition matrices are given from the one
 leading to the start

---
 demod/datasets/CREST/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 56e7582..2336459 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -235,7 +235,9 @@ class Crest(
             self._save_parsed_data(labels_file_name, labels)
             self._save_parsed_data(start_pdf_file_name, start_pdf)
 
-        return tpm, labels, start_pdf
+        # The first CREST matrix leads from the first to the second slot of
+        # the day, the simulators expect first the one leading to the start
+        return np.roll(tpm, 1, axis=0), labels, start_pdf
 
     def _parse_tpm(self, subgroup: Subgroup):
         day_type = self._subgroup_to_daytype(subgroup)
-- 
2.43.0


From a1bf7a4d9b6991263ab52fd4c8cfe1a6b47f5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 24/92] fix: occupancy appliances are ON for the whole duration
 of their cycle

---
 demod/simulators/appliance_simulators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d49d9d8..a87a7cb 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1238,6 +1238,11 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
             self.current_activity_pdf = next(self.activities_pdf_iterator)
             # DIM0: subgroups, DIM1: activity, DIM2: active_occupancy
 
+        # Updates the variables before the switch ons, so that appliances
+        # are ON during the whole duration of their cycle
+        self.update_iteration_variables()
+        self._cache.clear()
+
         switchon_probs = self.get_switchon_probs(active_occupancy_)
 
         # sample with Monte Carlo which appliances must be switched on
@@ -1249,7 +1254,8 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
 
         self.switch_off_inactive(active_occupancy)
 
-        super().step()  # Updates the variables
+        # The variables of the appliances are already updated
+        super(AppliancesSimulator, self).step()
 
 
 class SubgroupApplianceSimulator(OccupancyApplianceSimulator):
-- 
2.43.0


From 61bbb67259259e41bc23260cba895f52f82eb2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 25/92] fix: an unknown real_profiles_algo raises the intended
 ValueError

---
 demod/simulators/appliance_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index a87a7cb..b1c8a43 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -371,8 +371,8 @@ class AppliancesSimulator(TimeAwareSimulator):
 
         if real_profiles_algo != 'uniform':
             raise ValueError(UNIMPLEMENTED_ALGO_IN_METHOD.format(
-                real_profiles_algo,
-                type(self).__name__ + '.sample_real_load_profiles'
+                algo=real_profiles_algo,
+                method=type(self).__name__ + '.sample_real_load_profiles'
             ) + "Only 'uniform' is implemented at the moment.")
 
         self._sample_switched_on_load_profiles()
-- 
2.43.0


From 3701068b4f52f9d671cc61b8e43fe01105e75ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 26/92] fix: several appliances, or none, can follow another
 appliance

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index b1c8a43..eec24e1 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1935,7 +1935,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         indexes_app_start = np.array([], dtype=int)
         indexes_hh_start = np.array([], dtype=int)
         # Iterates over the appliances with a previous type
-        for app_id in new_app_id:
+        for app_id in new_app_id[0]:
             mask_stopped = (
                 # Finds where the appliance stopped is of this previous type
                 self.appliances['previous_appliance_type'][app_id]
-- 
2.43.0


From 3a5baeeb176d7472091f30b8de7d18a5d9469d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 27/92] fix: activity appliances log their initial state with
 the appliances in use

---
 demod/simulators/appliance_simulators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index eec24e1..3926a35 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1411,6 +1411,12 @@ class ActivityApplianceSimulator(AppliancesSimulator):
             self.appliances['related_activity'], ALWAYS_ON_ACTIVITES
         )] = True
 
+        # The appliances were not yet switched on when logged by the parent
+        self._cache.clear()
+        if self.logger:
+            self.logger.clear()
+            self.logger.visit_simulator(self)
+
     def _check_simulated_activities(self, activities_dict: ActivitiesDict):
         """One time check of matching simulated activities with appliances.
 
-- 
2.43.0


From 15bb0c4ab9acaa8b816ffece045bab08872f4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 28/92] fix: activity appliances start at the first value of
 their load profile

---
 demod/simulators/appliance_simulators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 3926a35..5aabb01 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1434,6 +1434,10 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         TODO: check how we want to implement secondary appliances.
         """
+        # Updates the variables before the switch ons, so that the load
+        # profiles of the appliances are used from their first value
+        self.update_iteration_variables()
+
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
@@ -1468,7 +1472,8 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         self.previous_act_dict = activities_dict.copy()
 
-        super().step()
+        # The variables of the appliances are already updated
+        super(AppliancesSimulator, self).step()
 
     def update_iteration_variables(self):
         """Check the load patterns that arrive to an end to restart them."""
-- 
2.43.0


From 0e289997b4b9436f8401908bc47513262063365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 29/92] fix: probabilistic appliances start from their current
 state, outside the refresh period

---
 demod/simulators/appliance_simulators.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 5aabb01..dd2d7f0 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1882,12 +1882,25 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         """
         return (
             (
-                ~self.get_current_usage()[indexes_household, indexes_appliance]
+                self._is_startable(indexes_household, indexes_appliance)
                 & ~np.isin(indexes_appliance, self.apps_dictated_start)
             )
             * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
+    def _is_startable(self, indexes_household, indexes_appliance):
+        """Whether the appliances are OFF and not in a refresh period.
+
+        Does not use the cached getters, as they might have been called
+        before the update of the variables.
+        """
+        return (
+            (self.n_steps_left[indexes_household, indexes_appliance] <= 0)
+            & (self.n_steps_till_refresh[
+                indexes_household, indexes_appliance
+            ] <= 0)
+        )
+
     def _compute_switch_on_probs_for_one_time(
         self, indexes_household: np.ndarray, indexes_appliance: np.ndarray
     ) -> np.ndarray:
@@ -1897,7 +1910,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         or when activity stops.
         """
         return (
-            (~self.get_current_usage()[indexes_household, indexes_appliance])
+            self._is_startable(indexes_household, indexes_appliance)
             * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
-- 
2.43.0


From 332b9604cff2f3f687cd1365dea1c706a06e84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 30/92] fix: start probability after an activity is not
 overwritten by the related activity

---
 demod/simulators/appliance_simulators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index dd2d7f0..17a6626 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1697,8 +1697,12 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
 
             # Sample the probability for each activity
             for activity, act_prob in activity_prob.items():
-                # Each appliance will have a target
-                mask_this_act = self.appliances['related_activity'] == activity
+                # Each appliance will have a target, appliances that start
+                # after another activity have their own probability below
+                mask_this_act = (
+                    (self.appliances['related_activity'] == activity)
+                    & (self.appliances['previous_activity'] == 'nan')
+                )
                 # Possible switchon steps in the target period (year)
                 n_possible_steps = (
                     365.25 * 24 * 60 * 60 / self.step_size.total_seconds()
-- 
2.43.0


From 3ba7142e6eb3317fcf07f678a343fcdb6bae3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 31/92] fix: appliances start after an activity that no
 appliance is related to

---
 demod/simulators/appliance_simulators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 17a6626..44d8841 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1817,7 +1817,12 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
-            if not np.any(mask_apps_this_act):
+            if not (
+                np.any(mask_apps_this_act)
+                or ('previous_activity' in self.appliances and np.any(
+                    self.appliances['previous_activity'] == act
+                ))
+            ):
                 # If no appliance is concerned by this activity
                 continue
 
-- 
2.43.0


From 3937e36c03df9ee283ab59da61827bcf8a9cb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:20 +0000
Subject: [PATCH 32/92] fix: probabilistic appliances without dictated starts
 in the dataset

---
 demod/simulators/appliance_simulators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 44d8841..4281902 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1590,6 +1590,12 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         self.initialize_starting_state(initial_activities_dict, **kwargs)
 
     def _assign_dictated_start(self):
+        # No appliance has a dictated start if the data does not specify it
+        for key in ['previous_appliance_type', 'previous_activity']:
+            if key not in self.appliances:
+                self.appliances[key] = np.full(
+                    self.appliances['number'], 'nan'
+                )
         mask_dictated_start = np.zeros(self.appliances['number'], dtype=bool)
         if 'previous_appliance_type' in self.appliances:
             mask_dictated_start[
-- 
2.43.0


From 0fa22bc9b649ca01d9ad7d5800e8c730b76aac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:19 +0000
Subject: [PATCH 33/92] fix: any NaN is an unknown number of owned appliances

---
 demod/utils/appliances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/appliances.py b/demod/utils/appliances.py
index 3db9f89..ae17f92 100644
--- a/demod/utils/appliances.py
+++ b/demod/utils/appliances.py
@@ -185,7 +185,7 @@ def assign_ownership_from_prob1_and_number(
         corresponds to the prob of owning
         a i-eth copy of the appliance.
     """
-    if number is np.nan:
+    if np.isnan(number):
         number = prob_1
     if (prob_1 > number) or (prob_1 < 0) or (prob_1 > 1) or (number < 0):
         raise ValueError(
-- 
2.43.0


From 24a5edb27ae37cfe11a293fcd17bede6ebf845c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:06 +0000
Subject: [PATCH 34/92] fix: Fisher lighting starts with one active occupant in
 every household

---
 demod/simulators/lighting_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d58a8ed..80c205d 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -93,7 +93,7 @@ class FisherLightingSimulator(Simulator):
             initial_irradiance: value of initial irradiance
         """
         self.active_occupancy = (
-            np.ones_like(self.n_households)
+            np.ones(self.n_households)
             if initial_active_occupancy is None else initial_active_occupancy
         )
         self.irradiance = initial_irradiance or 0
-- 
2.43.0


From a7c418c11bfea7d8fedadface5c79ac768a4681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:06 +0000
Subject: [PATCH 35/92] fix: CREST lighting is logged after the bulbs are
 updated

---
 demod/simulators/lighting_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index 80c205d..572da7b 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -407,8 +407,6 @@ class CrestLightingSimulator(Simulator):
             active_occupancy: number of active occupants in each households.
             irradiance: irradiation from the sun.
         """
-        super().step()
-
         # update the times left
         self.bulbs_times_left[self.bulbs_times_left > 0] -= 1
 
@@ -448,4 +446,6 @@ class CrestLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
+        super().step()
+
 
-- 
2.43.0


From e76caae9f88edcacf3659d78830204458f3526b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:25 +0000
Subject: [PATCH 36/92] fix: variable thermostats accept a pattern attribution
 method and a logger

---
 demod/simulators/heating_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7a5e4bc..b629aac 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -185,6 +185,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
         initial_act_occ,
         start_datetime,
         *args,
+        pattern_attribution_method="living lab",
         **kwargs
     ):
         """Initialize a Simulator with variable temperature
@@ -198,7 +199,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
                 temperature patterns
         """
         super().__init__(n_households, *args, **kwargs)
-        self.attribute_patterns(*args, **kwargs)
+        self.attribute_patterns(pattern_attribution_method)
         self.last_occupancy = initial_occupancy
         self.last_act_occ = initial_act_occ
         self.time = start_datetime
-- 
2.43.0


From 94c107d11e9d99e2da784e9081588e5b98ac68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 37/92] fix: heating systems without space heating or hot water
 capacity consume NaN fuel

---
 demod/simulators/heating_simulators.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index b629aac..a44f3f5 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1434,8 +1434,19 @@ class HeatingSystem(Simulator):
             (self.max_Phi_h_space > 0) | (self.max_Phi_h_dhw > 0)
         )
         heat_outputs = self.get_heat_outputs()
-        phi_space = heat_outputs["space_heating"]
-        phi_dhw = heat_outputs["dhw"]
+        # part of the capacity in use, 0 for systems without this capacity
+        load = sum(
+            np.divide(
+                phi,
+                max_phi,
+                out=np.zeros(self.n_households),
+                where=max_phi > 0,
+            )
+            for phi, max_phi in (
+                (heat_outputs["space_heating"], self.max_Phi_h_space),
+                (heat_outputs["dhw"], self.max_Phi_h_dhw),
+            )
+        )
 
         for h_type in np.unique(self.fuel_types):
             if h_type == "Mainsgas":
@@ -1444,10 +1455,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 3600.  # m^3/ h -> m^3/ sec
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * load,
                     0,
                 )
             elif h_type == "Electricity":
@@ -1456,10 +1464,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 1000.  # kW -> W
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * load,
                     0,
                 )
             else:
-- 
2.43.0


From 6ca8e7cd71f01a947e0a13b663931a1fa5cc9450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 38/92] fix: gas flow of heating systems is in m^3/s and its
 energy in W

---
 demod/simulators/heating_simulators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index a44f3f5..2c6582b 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1454,7 +1454,7 @@ class HeatingSystem(Simulator):
                 out_dict[h_type] = np.where(
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
-                    * 3600.  # m^3/ h -> m^3/ sec
+                    / 3600.0  # m^3/ h -> m^3/ sec
                     * load,
                     0,
                 )
@@ -1486,7 +1486,12 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas / self.dblFuelFlowRate * self.flow_rate_to_W
+        gas = np.divide(
+            gas * 3600.0,  # m^3/ sec -> m^3/ h
+            self.dblFuelFlowRate,
+            out=np.zeros(self.n_households),
+            where=self.dblFuelFlowRate > 0,
+        ) * self.flow_rate_to_W
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From 03da1d815cb32ff8dfabfc04444695941092d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 39/92] fix: heat demand of the five modules uses their step
 size

---
 demod/simulators/heating_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 2c6582b..741f75e 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1693,6 +1693,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             n_households,
             self.heatingsystem,
             self.building_sim,
+            step_size=step_size,
             heatdemand_algo=heatdemand_algo,
             deadbands=self.thermostats_sim.thermostat['deadband']
         )
-- 
2.43.0


From 10d651af0bccca50ea5ae97d857e98d2d481d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 40/92] fix: NaN external target temperatures keep the target
 of the household

---
 demod/simulators/heating_simulators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 741f75e..54360c3 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -800,11 +800,13 @@ class Thermostats(Simulator):
         """
         if isinstance(target_temperatures, dict):
             for key, item in target_temperatures.items():
-                self.target_temperatures[key] = item
+                self.target_temperatures[key] = assign_external_array(
+                    self.target_temperatures[key], item
+                )
         elif isinstance(target_temperatures, np.ndarray):
             # assume the room temperature was given as target_temperature
-            self.target_temperatures["space_heating"] = np.array(
-                target_temperatures
+            self.target_temperatures["space_heating"] = assign_external_array(
+                self.target_temperatures["space_heating"], target_temperatures
             )
         else:
             raise TypeError("target_temperature must be dict or ndarray")
-- 
2.43.0


From d025f95476cac97a6eb35a10b87a304169c7fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 41/92] fix: NaN external heat outputs do not replace the space
 heating of the household

---
 demod/simulators/heating_simulators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 54360c3..f41bc89 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1783,6 +1783,11 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         heat_outputs_dict["dhw"] += remaining_heat_output
 
+        # nan values indicate that no external output is given
+        heat_outputs_dict["space_heating"] = np.where(
+            np.isnan(heat_output), np.nan, heat_outputs_dict["space_heating"]
+        )
+
         return heat_outputs_dict
 
     def _set_external_heating_systems(self, external_heat_outputs_dict):
-- 
2.43.0


From cce9b2b3f8025fc3443c6dfb251c651a6d37024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 42/92] fix: external dhw and sh outputs override external heat
 outputs only where given

---
 demod/simulators/heating_simulators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index f41bc89..973279a 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1833,7 +1833,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             heat_output_dictionary
         """
         if isinstance(external_heat_outputs, dict):
-            out_dict = external_heat_outputs
+            out_dict = dict(external_heat_outputs)
         else:
             out_dict = {}
         # convert the external heat_outputs as ndarray to the dict heat output format
@@ -1848,14 +1848,19 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         if external_dhw_outputs is not None:
             # Creates the array to store the dhw
             out_dict["dhw"] = assign_external_array(
-                np.full(external_dhw_outputs.shape, np.nan),
+                out_dict.get(
+                    "dhw", np.full(external_dhw_outputs.shape, np.nan)
+                ),
                 external_dhw_outputs,
             )
 
         if external_sh_outputs is not None:
             # Creates the array to store the dhw
             out_dict["space_heating"] = assign_external_array(
-                np.full(external_sh_outputs.shape, np.nan), external_sh_outputs
+                out_dict.get(
+                    "space_heating", np.full(external_sh_outputs.shape, np.nan)
+                ),
+                external_sh_outputs,
             )
 
         return out_dict
-- 
2.43.0


From 573a0c1edce999e2cf55161ec4acba254a42807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 43/92] fix: external cylinders apply to the steps for which
 they are given

---
 demod/simulators/heating_simulators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 973279a..78554d6 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1935,7 +1935,11 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         # also assigns external cylinder in sim
         self.building_sim.temperatures["cylinder"] = temperatures["cylinder"]
-
+        self.use_external_cylinder = (
+            np.full(self.n_households, False)
+            if external_cylinder_temperature is None
+            else ~np.isnan(external_cylinder_temperature)
+        )
 
         # update the simulators
         self.thermostats_sim.step(
@@ -1977,9 +1981,6 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # dhw demand is changed depending on the external cylinder
         if external_cylinder_temperature is not None:
-            self.use_external_cylinder = ~np.isnan(
-                external_cylinder_temperature
-            )
             self.cyl_dhw_demand = self._compute_dhw_external_cyl(
                 temperatures, dhw_heating_demand, target_temperature["dhw"]
             )
-- 
2.43.0


From 1a45bd587d17c5516b88a5a15cba920d45b237c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 44/92] fix: total heat output includes the external heat
 outputs

---
 demod/simulators/heating_simulators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 78554d6..a941996 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1968,6 +1968,9 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         heat_outputs = assign_external_dict(
             self.heatingsystem.get_heat_outputs(), external_heat_outputs_dict
         )
+        heat_outputs["total"] = (
+            heat_outputs["space_heating"] + heat_outputs["dhw"]
+        )
 
         self.building_sim.step(
             outside_temperature=outside_temperature,
-- 
2.43.0


From 89252bd56ad2d153726d5ba46836664a7f048e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 45/92] fix: CREST irradiance becomes an array after the first
 step

The clearness state drawn is an array of one element, so irradiance and
clearness changed from numbers to arrays and the climate simulator could
not gather the values of the day.
---
 demod/simulators/weather_simulators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3211be0..f888a8b 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -151,8 +151,10 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-        self._clearness_state = monte_carlo_from_1d_cdf(
-            self.clearness_cdf[self._clearness_state]
+        self._clearness_state = int(
+            monte_carlo_from_1d_cdf(
+                self.clearness_cdf[self._clearness_state]
+            )[0]
         )
         return self.clearness_values[
             self._clearness_state
-- 
2.43.0


From 39422e643d43fe78e7cf63e25ebe30609fd1cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 46/92] fix: CREST irradiance is reset to zero when starting
 during the day

The irradiance at midnight was assigned after the simulation had been
brought to the start, and did not exist when a logger read it.
---
 demod/simulators/weather_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index f888a8b..7803f00 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -143,11 +143,12 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
         self.on_after_next_day()
 
+        # Assuume midnight sun is down
+        self.irradiance = 0
+
         super().initialize_starting_state(
             initialization_time=datetime.time(0, 0, 0)
         )
-        # Assuume midnight sun is down
-        self.irradiance = 0
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-- 
2.43.0


From 67d6ceefa6b84f45eaf1ff673a9e861cf450e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:10 +0000
Subject: [PATCH 47/92] fix: CREST climate shifts the sun when not starting at
 midnight

The days of irradiance were simulated from the start time but used as
starting at midnight.
---
 demod/simulators/weather_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 7803f00..64014c7 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -332,7 +332,10 @@ class CrestClimateSimulator(ClimateSimulator):
         kwargs.pop("logger", None)
         self.irradiance_sim = CrestIrradianceSimulator(
             data,
-            start_datetime=start_datetime,
+            # The irradiance is simulated by whole days, from midnight
+            start_datetime=start_datetime.replace(
+                hour=0, minute=0, second=0, microsecond=0
+            ),
             initial_clearness=initial_clearness,
             **kwargs)
 
-- 
2.43.0


From 6fcb2d55d41b11b28b1b40e2d0ca424fd9e62229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 48/92] fix: real climates read the utc data as local time

The first datapoint, in utc, was labelled with the time zone of the
start: the data was shifted by the offset of the zone, and starts west
of Greenwich were refused.
---
 demod/simulators/weather_simulators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 64014c7..43caf2e 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -640,9 +640,11 @@ class RealClimate(ClimateSimulator):
         intialization_time = climate_data['datetime'][0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # The data is recorded in utc
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
             raise ValueError(
@@ -766,9 +768,11 @@ class RealInterpolatedClimate(ClimateSimulator):
         intialization_time = self.datetime_values_utc[0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # The data is recorded in utc
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
 
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
-- 
2.43.0


From 2d8d2fa99f75e25cff0bb8a77735dd9457978d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 49/92] fix: interpolated climate ignores the seconds of the
 clock

Times were truncated to the minute before interpolating.
---
 demod/simulators/weather_simulators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 43caf2e..2a232e0 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -739,7 +739,7 @@ class RealInterpolatedClimate(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
 
         self.datetime_values_utc = np.array(
-            climate_dict.pop('datetime'), dtype='datetime64[m]')
+            climate_dict.pop('datetime'), dtype='datetime64[us]')
         self.initial_time = self.datetime_values_utc[0]
         # Check where is the end of the data
         self.last_time = self.datetime_values_utc[-1].astype(datetime.datetime)
@@ -748,7 +748,10 @@ class RealInterpolatedClimate(ClimateSimulator):
             else datetime.timezone.utc
         )
         # must use real values for interp1d
-        minutes = (self.datetime_values_utc - self.initial_time).astype(float)
+        minutes = (
+            (self.datetime_values_utc - self.initial_time)
+            / np.timedelta64(1, 'm')
+        )
 
         self.interpolators = {
             key: interp1d(
@@ -808,13 +811,13 @@ class RealInterpolatedClimate(ClimateSimulator):
                 datetime.datetime.utcfromtimestamp(
                     self.current_time.timestamp()
                 ) if self.current_time.tzinfo is not None
-                else self.current_time, dtype='datetime64[m]'
+                else self.current_time, dtype='datetime64[us]'
             )
             # gets the relative position
             minute = (
                 np_current_time_utc
                 - self.initial_time
-            ).astype(float)
+            ) / np.timedelta64(1, 'm')
             return self.interpolators[_key](minute)
 
         return interpolated_getter
-- 
2.43.0


From 3b1c36eee7f06de748f4b23500c0743bb94babd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 50/92] fix: RenewablesNinja irradiance adds the one outside of
 the atmosphere

'irradiance_surface' is the irradiance on the ground, 'irradiance_toa'
is not a diffuse part to be added to it.
---
 demod/datasets/RenewablesNinja/loader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index a195e7b..752178e 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -158,9 +158,7 @@ class NinjaRenewablesClimate(ClimateLoader):
 
         out_dict['outside_temperature'] = np.array(df['temperature'])
 
-        radiation_direct = np.array(df['irradiance_surface'])
-        radiation_diffuse = np.array(df['irradiance_toa'])
-        # https://meteonorm.meteotest.ch/en/faq/definition-of-direct-and-diffuse-radiation
-        out_dict['irradiance'] = radiation_diffuse + radiation_direct
+        # 'irradiance_toa' is the one at the top of the atmosphere
+        out_dict['irradiance'] = np.array(df['irradiance_surface'])
 
         return out_dict
-- 
2.43.0


From 696b0ce182e645f2c13a931474cda81b90001caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 51/92] fix: RenewablesNinja clearness is the cloud cover

---
 demod/datasets/RenewablesNinja/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 752178e..1c8a722 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -152,7 +152,7 @@ class NinjaRenewablesClimate(ClimateLoader):
         out_dict['snowfall'] = np.array(df['snowfall'])
         out_dict['snow_mass'] = np.array(df['snow_mass'])
 
-        out_dict['clearness'] = np.array(df['cloud_cover'])
+        out_dict['clearness'] = 1. - np.array(df['cloud_cover'])
 
         out_dict['air_density'] = np.array(df['air_density'])
 
-- 
2.43.0


From 709d68c555e45ca19de052a2445852e7822f4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:39 +0000
Subject: [PATCH 52/92] fix: external targets given as a single value for all
 the households

---
 demod/simulators/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index c499b98..15cfac0 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -35,6 +35,7 @@ def assign_external_array(
     if external_array is None:
         return base_array
     out = np.array(base_array)
+    external_array = np.broadcast_to(external_array, out.shape)
     mask_not_nan = ~np.isnan(external_array)
     out[mask_not_nan] = external_array[mask_not_nan]
     return out
-- 
2.43.0


From 5642085e0f526227e21273c7a83c396811341a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:46 +0000
Subject: [PATCH 53/92] fix: interrupted writing of parsed data breaks all the
 next loads

A crash, a full disk or data that cannot be stored left a truncated file
that was then taken for the parsed data; another process could read the
file while it was being written.
---
 demod/datasets/base_loader.py | 63 ++++++++++++++++++++---------------
 demod/datasets/tou_loader.py  | 25 +++++++++-----
 demod/utils/files.py          | 25 ++++++++++++++
 demod/utils/sparse.py         | 25 +++++++++-----
 4 files changed, 93 insertions(+), 45 deletions(-)
 create mode 100644 demod/utils/files.py

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b664b4a..bbdf36c 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from datetime import timedelta
 import datetime
 import inspect
+from ..utils.files import replaced_file
 from ..utils.parse_helpers import lists_to_numpy_array, make_jsonable
 from ..utils.sim_types import AppliancesDict, StateLabels, Subgroup, Subgroups, TPM, TPMs
 from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
@@ -230,7 +231,7 @@ class DatasetLoader:
         file_path = os.path.join(self.parsed_path, file_name + ".json")
         # Only days, seconds and microseconds are stored internally,
         # in timedelta objects
-        with open(file_path, "w+") as f:
+        with replaced_file(file_path) as f:
             json.dump(
                 {
                     "days": step_size.days,
@@ -327,12 +328,14 @@ class DatasetLoader:
         else:
             raise TypeError("Arg 'array' must be ndarray or list or tuple.")
 
-        if compress:
-            np.savez_compressed(file_path, *array_list)
-        elif npz:
-            np.savez(file_path, *array_list)
-        else:
-            np.save(file_path, array)
+        extension = '.npz' if compress or npz else '.npy'
+        with replaced_file(file_path + extension, 'wb') as f:
+            if compress:
+                np.savez_compressed(f, *array_list)
+            elif npz:
+                np.savez(f, *array_list)
+            else:
+                np.save(f, array)
 
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
@@ -383,7 +386,7 @@ class PopulationLoader(DatasetLoader):
                 population_dict['total_number']
              ) = self._parse_population_subgroups(population_type)
 
-            with open(app_file, "w+") as f:
+            with replaced_file(app_file) as f:
                 json.dump(make_jsonable(population_dict), f, indent=2)
 
         return (
@@ -438,7 +441,7 @@ class ApplianceLoader(DatasetLoader):
                     ).format(type(self).__name__)
                 )
 
-            with open(app_file, "w+") as f:
+            with replaced_file(app_file) as f:
                 json.dump(make_jsonable(appliance_dict), f, indent=2)
 
         return lists_to_numpy_array(appliance_dict)
@@ -486,7 +489,8 @@ class ApplianceLoader(DatasetLoader):
                 for name, load in names_dict.items():
                     parsed_dict[app_type + self._SPLIT_CHAR + name] = load
             # Compress as the load profiles might be quite heavy
-            np.savez_compressed(app_file, **parsed_dict)
+            with replaced_file(app_file + '.npz', 'wb') as f:
+                np.savez_compressed(f, **parsed_dict)
 
         return load_profiles_dict
 
@@ -546,7 +550,8 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             ownership_dict = self._parse_appliance_ownership_dict(subgroup)
-            np.savez(file_path, **ownership_dict)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez(f, **ownership_dict)
 
         return ownership_dict
 
@@ -601,7 +606,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_switchons(subgroup)
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -658,7 +663,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_consumption(subgroup)
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -718,7 +723,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_duration(subgroup)
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -782,8 +787,10 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as f_err:
             self._warn_could_not_load_parsed(f_err, file_path)
             clearness_tpms, labels, step_size = self._parse_clearness_tpms()
-            np.save(file_path, clearness_tpms)
-            np.save(labels_path, labels)
+            with replaced_file(file_path + '.npy', 'wb') as f:
+                np.save(f, clearness_tpms)
+            with replaced_file(labels_path + '.npy', 'wb') as f:
+                np.save(f, labels)
             self._save_step_size(step_size_file_name, step_size)
 
         return clearness_tpms, labels, step_size
@@ -807,7 +814,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "temperatures_arma.json")
             geo_dic = self._parse_temperatures_arma()
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -838,7 +845,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "geographic_data.json")
             geo_dic = self._parse_geographic_data()
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -880,7 +887,8 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_path)
             climate_dict = self._parse_historical_climate_data()
-            np.savez_compressed(file_path, **climate_dict)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez_compressed(f, **climate_dict)
 
         # Check for aware datetime
         if start_datetime.tzinfo is not None:
@@ -941,7 +949,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "fisher_lighting.json")
             fisher_dic = self._parse_fisher_lighting()
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(fisher_dic, f)
 
         return fisher_dic
@@ -966,7 +974,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "crest_lighting.json")
             crest_dic = self._parse_crest_lighting()
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(make_jsonable(crest_dic), f)
 
         return lists_to_numpy_array(crest_dic)
@@ -1002,7 +1010,7 @@ class LightingLoader(DatasetLoader):
                 'bulbs_consumption': bulbs_consumption,
                 'bulbs_penetration': bulbs_penetration,
             }
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(make_jsonable(bulbs_dic), f)
 
         return (
@@ -1039,7 +1047,8 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, file_path)
             bulbs = self._parse_bulbs_config(subgroup)
-            np.save(file_path, bulbs)
+            with replaced_file(file_path + '.npy', 'wb') as f:
+                np.save(f, bulbs)
 
         return bulbs
 
@@ -1075,7 +1084,7 @@ class LightingLoader(DatasetLoader):
                     'mean': mean,
                     'std': std,
                 }
-            with open(file_path, "w+") as f:
+            with replaced_file(file_path) as f:
                 json.dump(dic, f)
 
         return dic['mean'], dic['std']
@@ -1117,7 +1126,7 @@ class HeatingLoader(DatasetLoader):
 
             buildings_dict = self._parse_buildings_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with replaced_file(app_file) as f:
                 json.dump(make_jsonable(buildings_dict), f, indent=2)
 
         return lists_to_numpy_array(buildings_dict)
@@ -1149,7 +1158,7 @@ class HeatingLoader(DatasetLoader):
 
             heating_system_dict = self._parse_heating_system_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with replaced_file(app_file) as f:
                 json.dump(make_jsonable(heating_system_dict), f, indent=2)
 
         return lists_to_numpy_array(heating_system_dict)
@@ -1181,7 +1190,7 @@ class HeatingLoader(DatasetLoader):
 
             thermostat_dict = self._parse_thermostat_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with replaced_file(app_file) as f:
                 json.dump(make_jsonable(thermostat_dict), f, indent=2)
 
         return lists_to_numpy_array(thermostat_dict)
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 3a35467..9dc624a 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -1,5 +1,6 @@
 from datetime import datetime, time
 from demod.utils.monte_carlo import PDFs
+from demod.utils.files import replaced_file
 from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
 import os
@@ -78,14 +79,15 @@ class LoaderTOU(DatasetLoader):
             tpm_dict['labels'] = labels
             tpm_dict['initial_pdf'] = initial_pdf
 
-            np.savez(file_path, **tpm_dict)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez(f, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with replaced_file(legend_path) as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, labels, initial_pdf
@@ -146,14 +148,15 @@ class LoaderTOU(DatasetLoader):
                 labels, initial_pdf, initial_duration_pdfs
             )
 
-            np.savez(file_path, **tpm_dict)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez(f, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with replaced_file(legend_path) as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, duration_pdfs, labels, initial_pdf, initial_duration_pdfs
@@ -222,7 +225,7 @@ class LoaderTOU(DatasetLoader):
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with replaced_file(legend_path) as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return sparse_tpm, labels, activity_labels, initial_pdf
@@ -288,7 +291,8 @@ class LoaderTOU(DatasetLoader):
             activity_profiles = self._parse_activity_profiles(
                 subgroup
             )
-            np.savez(file_path, **activity_profiles)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez(f, **activity_profiles)
 
         return activity_profiles
 
@@ -347,7 +351,8 @@ class LoaderTOU(DatasetLoader):
             act_occurences = self._parse_daily_activity_starts(
                 subgroup
             )
-            np.savez(file_path, **act_occurences)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez(f, **act_occurences)
 
         return act_occurences
 
@@ -395,7 +400,8 @@ class LoaderTOU(DatasetLoader):
             act_durations = self._parse_activity_duration(
                 subgroup
             )
-            np.savez(file_path, **act_durations)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez(f, **act_durations)
 
         return act_durations
 
@@ -432,7 +438,8 @@ class LoaderTOU(DatasetLoader):
             act_proabs = self._parse_activity_probabilities(
                 subgroup
             )
-            np.savez(file_path, **act_proabs)
+            with replaced_file(file_path + '.npz', 'wb') as f:
+                np.savez(f, **act_proabs)
         return act_proabs
 
     def _parse_activity_probabilities(
diff --git a/demod/utils/files.py b/demod/utils/files.py
new file mode 100644
index 0000000..6957b0a
--- /dev/null
+++ b/demod/utils/files.py
@@ -0,0 +1,25 @@
+"""Helpers for writing files."""
+from contextlib import contextmanager
+import os
+
+
+@contextmanager
+def replaced_file(path: str, mode: str = 'w'):
+    """Open a file that appears at the path only once it is complete.
+
+    An interrupted writing leaves what was at the path before, and
+    other processes never read a part of the file.
+
+    Args:
+        path: The path of the file.
+        mode: The mode to open the file. Defaults to 'w'.
+    """
+    partial_path = '{}.{}.part'.format(path, os.getpid())
+    try:
+        with open(partial_path, mode) as f:
+            yield f
+        os.replace(partial_path, path)
+    except BaseException:
+        if os.path.exists(partial_path):
+            os.remove(partial_path)
+        raise
diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 68e2328..4d108ca 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -10,6 +10,8 @@ import os
 import warnings
 import numpy as np
 
+from .files import replaced_file
+
 
 class SparseTPM():
     """A sparse implementation of the Transition probability Matrices.
@@ -219,15 +221,20 @@ class SparseTPM():
         Args:
             path: The path to which the TPM should be saved.
         """
-        np.save(path+'_tpm_times', self.times)
-        np.save(path+'_tpm_inds_from', self.inds_from)
-        np.save(path+'_tpm_inds_to', self.inds_to)
-        np.save(path+'_tpm_values', self.values)
-        # sizes and dead state cannot be found back from the transitions
-        np.save(path+'_tpm_meta', np.array([
-            self.n_states, self.n_times,
-            -1 if self.dead_state_value is None else self.dead_state_value
-        ]))
+        arrays = {
+            'times': self.times,
+            'inds_from': self.inds_from,
+            'inds_to': self.inds_to,
+            'values': self.values,
+            # sizes and dead state cannot be found back from the transitions
+            'meta': np.array([
+                self.n_states, self.n_times,
+                -1 if self.dead_state_value is None else self.dead_state_value
+            ]),
+        }
+        for name, array in arrays.items():
+            with replaced_file(path + '_tpm_' + name + '.npy', 'wb') as f:
+                np.save(f, array)
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
-- 
2.43.0


From 36e8cf73968606b0112f2c57802d48760d93046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:39 +0000
Subject: [PATCH 54/92] fix: interrupted downloads are taken for complete files

The files are now in place only once they are complete, and the archives
only once they are extracted.
---
 demod/datasets/CREST/loader.py           | 3 ++-
 demod/datasets/DESTATIS/loader.py        | 3 ++-
 demod/datasets/GermanTOU/loader.py       | 9 +++++----
 demod/datasets/Germany/loader.py         | 3 ++-
 demod/datasets/RenewablesNinja/loader.py | 3 ++-
 demod/datasets/tracebase/loader.py       | 9 +++++----
 6 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 2336459..c63c345 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -22,6 +22,7 @@ from ..base_loader import (
     LightingLoader,
     PopulationLoader,
 )
+from ...utils.files import replaced_file
 from ...utils.sim_types import (
     AppliancesDict,
     StateLabels,
@@ -100,7 +101,7 @@ class Crest(
             # Reads the url and  download the
             print('Downloading CREST Model to : {}'.format(self.raw_file_path))
             with request.urlopen(DOWNLOAD_URL_BY_VERSION[version]) as response:
-                with open(self.raw_file_path, 'wb') as f:
+                with replaced_file(self.raw_file_path, 'wb') as f:
                     shutil.copyfileobj(response, f)
 
     def load_population_subgroups(
diff --git a/demod/datasets/DESTATIS/loader.py b/demod/datasets/DESTATIS/loader.py
index 0faf75c..81b1bd1 100644
--- a/demod/datasets/DESTATIS/loader.py
+++ b/demod/datasets/DESTATIS/loader.py
@@ -6,6 +6,7 @@ import pandas as pd
 from urllib import request
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
 from ...utils.appliances import assign_ownership_from_prob1_and_number
+from ...utils.files import replaced_file
 from ...utils.subgroup_handling import remove_time_attributues
 from ..base_loader import ApplianceLoader, PopulationLoader
 
@@ -144,7 +145,7 @@ class Destatis(ApplianceLoader, PopulationLoader):
             # Reads the url and  download the zip archive
             response = request.urlopen(url)
             datatowrite = response.read()
-            with open(data_path, 'wb') as f:
+            with replaced_file(data_path, 'wb') as f:
                 f.write(datatowrite)
 
 
diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 50a3f34..7e3df2c 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -12,6 +12,7 @@ import zipfile
 from ..tou_loader import LoaderTOU
 from ..base_loader import GITHUB_REPO_URL, PopulationLoader
 from ..DESTATIS.loader import Destatis
+from ...utils.files import replaced_file
 from ...utils.parse_helpers import convert_states, states_to_transitions
 from ...utils.sim_types import *
 from ...utils.monte_carlo import PDFs
@@ -144,11 +145,11 @@ class GTOU(LoaderTOU, PopulationLoader):
             else:
                 raise e
         datatowrite = response.read()
-        with open(parsed_zip_filepath, 'wb') as f:
+        # The zip is there only once downloaded and extracted
+        with replaced_file(parsed_zip_filepath, 'w+b') as f:
             f.write(datatowrite)
-        # Now the file is downloaded
-        with zipfile.ZipFile(parsed_zip_filepath, 'r') as zip_obj:
-            zip_obj.extractall(self.parsed_path_activity)
+            with zipfile.ZipFile(f, 'r') as zip_obj:
+                zip_obj.extractall(self.parsed_path_activity)
 
 
     def _parse_tpm(self, subgroup: Subgroup):
diff --git a/demod/datasets/Germany/loader.py b/demod/datasets/Germany/loader.py
index fcc7ff7..6a8871a 100644
--- a/demod/datasets/Germany/loader.py
+++ b/demod/datasets/Germany/loader.py
@@ -7,6 +7,7 @@ import numpy as np
 import pandas as pd
 
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
+from ...utils.files import replaced_file
 from ...utils.parse_helpers import remove_spaces
 from typing import Any, Dict, List, Tuple
 from ..base_loader import (
@@ -89,7 +90,7 @@ class GermanDataHerus(
             ))
             response = request.urlopen(url)
             datatowrite = response.read()
-            with open(self.raw_file_path, 'wb') as f:
+            with replaced_file(self.raw_file_path, 'wb') as f:
                 f.write(datatowrite)
 
         self.refresh_time = self.activity_data.refresh_time
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 1c8a722..8938cbb 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -14,6 +14,7 @@ import zipfile
 import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
+from ...utils.files import replaced_file
 from ...utils.countries import country_name_to_code, is_country_code
 
 
@@ -114,7 +115,7 @@ class NinjaRenewablesClimate(ClimateLoader):
 
         # Reads the url and  download the
         with urllib.request.urlopen(request) as response:
-            with open(self.raw_file_path, 'wb') as f:
+            with replaced_file(self.raw_file_path, 'wb') as f:
                 shutil.copyfileobj(response, f)
         print('download finished')
         # Now the file is downloaded, we can remove old parsed data
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 6363ed5..04250a1 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -24,6 +24,7 @@ import numpy as np
 import pandas as pd
 
 from ..base_loader import ApplianceLoader
+from ...utils.files import replaced_file
 
 
 traceback_type_to_demod = {
@@ -124,11 +125,11 @@ class Tracebase(ApplianceLoader):
             print('This can take some time.')
             # Reads the url and  download the zip archive
             with  urllib.request.urlopen(download_url) as response:
-                with open(raw_zip_filepath, 'wb') as f:
+                # The zip is there only once downloaded and extracted
+                with replaced_file(raw_zip_filepath, 'w+b') as f:
                     shutil.copyfileobj(response, f)
-            # Now the file is downloaded
-            with zipfile.ZipFile(raw_zip_filepath, 'r') as zip_obj:
-                zip_obj.extractall(self.raw_path)
+                    with zipfile.ZipFile(f, 'r') as zip_obj:
+                        zip_obj.extractall(self.raw_path)
 
     def _parse_real_profiles_dict(self, profiles_type: str):
         if profiles_type == 'switchedON':
-- 
2.43.0


From 3b2fa25b53fc3eaa463068f16874208aad9dbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 55/92] fix: datasets used by several processes at once fail to
 make their folders

---
 demod/datasets/CREST/loader.py            |  5 ++-
 demod/datasets/OpenPowerSystems/loader.py |  4 +--
 demod/datasets/RenewablesNinja/loader.py  |  8 ++---
 demod/datasets/base_loader.py             | 38 ++++++++---------------
 demod/datasets/tou_loader.py              |  8 ++---
 demod/datasets/tracebase/loader.py        |  5 ++-
 demod/utils/files.py                      |  9 ++++++
 7 files changed, 34 insertions(+), 43 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index c63c345..792e311 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -22,7 +22,7 @@ from ..base_loader import (
     LightingLoader,
     PopulationLoader,
 )
-from ...utils.files import replaced_file
+from ...utils.files import make_dir, replaced_file
 from ...utils.sim_types import (
     AppliancesDict,
     StateLabels,
@@ -210,8 +210,7 @@ class Crest(
         self._check_crest_subgroup(subgroup)
 
         tpm_path = self.parsed_path + os.sep + "4_States"
-        if not os.path.exists(tpm_path):
-            os.mkdir(tpm_path)
+        make_dir(tpm_path)
         tpm_file_name = "".join(
             ("4_States", os.sep, "tpm__", subgroup_string(subgroup))
         )
diff --git a/demod/datasets/OpenPowerSystems/loader.py b/demod/datasets/OpenPowerSystems/loader.py
index dd07b87..9f32196 100644
--- a/demod/datasets/OpenPowerSystems/loader.py
+++ b/demod/datasets/OpenPowerSystems/loader.py
@@ -7,6 +7,7 @@ from typing import Any, Dict
 import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
+from ...utils.files import make_dir
 from ...utils.countries import country_name_to_code
 
 
@@ -36,8 +37,7 @@ class OpenPowerSystemClimate(ClimateLoader):
         self.parsed_path_climate = os.path.join(
             self.parsed_path_climate, country_name)
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_dir(self.parsed_path_climate)
 
         self.country = country_name
 
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 8938cbb..c271ae2 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -14,7 +14,7 @@ import zipfile
 import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
-from ...utils.files import replaced_file
+from ...utils.files import make_dir, replaced_file
 from ...utils.countries import country_name_to_code, is_country_code
 
 
@@ -70,11 +70,9 @@ class NinjaRenewablesClimate(ClimateLoader):
         self.parsed_path_climate = os.path.join(
             self.parsed_path_climate, country_name)
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_dir(self.parsed_path_climate)
         # Creates the raw path
-        if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_dir(self.raw_path)
 
         self.country = country_name
 
diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index bbdf36c..1629770 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from datetime import timedelta
 import datetime
 import inspect
-from ..utils.files import replaced_file
+from ..utils.files import make_dir, replaced_file
 from ..utils.parse_helpers import lists_to_numpy_array, make_jsonable
 from ..utils.sim_types import AppliancesDict, StateLabels, Subgroup, Subgroups, TPM, TPMs
 from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
@@ -87,15 +87,12 @@ class DatasetLoader:
         self.parsed_path = os.path.join(self.DATASET_PATH, "parsed_data")
 
         # Creates the directories if they do not exist
-        if not os.path.exists(self.parsed_path):
-            os.mkdir(self.parsed_path)
-        if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_dir(self.parsed_path)
+        make_dir(self.raw_path)
 
         if version is not None:
             self.parsed_path = os.path.join(self.parsed_path, version)
-            if not os.path.isdir(self.parsed_path):
-                os.mkdir(self.parsed_path)
+            make_dir(self.parsed_path)
 
         self.version = version
 
@@ -339,8 +336,7 @@ class DatasetLoader:
 
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
-        if not os.path.isdir(self.parsed_path):
-            os.mkdir(self.parsed_path)
+        make_dir(self.parsed_path)
 
 
 class PopulationLoader(DatasetLoader):
@@ -351,8 +347,7 @@ class PopulationLoader(DatasetLoader):
         self.parsed_population_folder = os.path.join(
             self.parsed_path, 'population'
         )
-        if not os.path.isdir(self.parsed_population_folder):
-            os.mkdir(self.parsed_population_folder)
+        make_dir(self.parsed_population_folder)
 
     def load_population_subgroups(
         self, population_type: str,
@@ -539,8 +534,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_ownership"
         parsed_path_ownership = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_ownership):
-            os.mkdir(parsed_path_ownership)
+        make_dir(parsed_path_ownership)
 
         file_name = folder_name + os.sep + "ownership__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -594,8 +588,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_dir(parsed_path_targets)
 
         file_name = folder_name + os.sep + "switchons__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -651,8 +644,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_dir(parsed_path_targets)
 
         file_name = folder_name + os.sep + "consumption__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -711,8 +703,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_dir(parsed_path_targets)
 
         file_name = folder_name + os.sep + "duration__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -759,8 +750,7 @@ class ClimateLoader(DatasetLoader):
         """
         super().__init__(**kwargs)
         self.parsed_path_climate = os.path.join(self.parsed_path, "climate")
-        if not os.path.isdir(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_dir(self.parsed_path_climate)
 
     def load_clearness_tpms(self) -> Tuple[TPM, StateLabels, timedelta]:
         """Return TPM for the clearness of the sky, with the labels.
@@ -932,8 +922,7 @@ class LightingLoader(DatasetLoader):
         self.parsed_bulbs_folder = os.path.join(
             self.parsed_path, 'bulbs'
         )
-        if not os.path.isdir(self.parsed_bulbs_folder):
-            os.mkdir(self.parsed_bulbs_folder)
+        make_dir(self.parsed_bulbs_folder)
 
     def load_fisher_lighting(self) -> Dict[str, Any]:
         """Load data for
@@ -1103,8 +1092,7 @@ class HeatingLoader(DatasetLoader):
         self.parsed_heating_folder = os.path.join(
             self.parsed_path, 'heating'
         )
-        if not os.path.isdir(self.parsed_heating_folder):
-            os.mkdir(self.parsed_heating_folder)
+        make_dir(self.parsed_heating_folder)
     def load_buildings_dict(
         self, subgroup: Subgroup = {}
     ) -> Dict[str, np.ndarray]:
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 9dc624a..ab4f7f0 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -1,6 +1,6 @@
 from datetime import datetime, time
 from demod.utils.monte_carlo import PDFs
-from demod.utils.files import replaced_file
+from demod.utils.files import make_dir, replaced_file
 from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
 import os
@@ -41,8 +41,7 @@ class LoaderTOU(DatasetLoader):
         # make the dir of the parsed path
         self._check_make_parsed_dir()
         # make the dir of the parsed path activity type
-        if not os.path.exists(self.parsed_path_activity):
-            os.mkdir(self.parsed_path_activity)
+        make_dir(self.parsed_path_activity)
 
     def load_tpm(
         self, subgroup: Subgroup
@@ -306,8 +305,7 @@ class LoaderTOU(DatasetLoader):
             self.parsed_path_activity,
             'ActivityStats'
         )
-        if not os.path.isdir(self.parsed_path_activity_stats):
-            os.mkdir(self.parsed_path_activity_stats)
+        make_dir(self.parsed_path_activity_stats)
 
     def load_daily_activity_starts(
         self, subgroup: Subgroup
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 04250a1..fad4f00 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -24,7 +24,7 @@ import numpy as np
 import pandas as pd
 
 from ..base_loader import ApplianceLoader
-from ...utils.files import replaced_file
+from ...utils.files import make_dir, replaced_file
 
 
 traceback_type_to_demod = {
@@ -113,8 +113,7 @@ class Tracebase(ApplianceLoader):
             clear_parsed_data=clear_parsed_data or update_raw_data
         )
         self.step_size = step_size
-        if not os.path.isdir(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_dir(self.raw_path)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
         if update_raw_data:
diff --git a/demod/utils/files.py b/demod/utils/files.py
index 6957b0a..8030f71 100644
--- a/demod/utils/files.py
+++ b/demod/utils/files.py
@@ -23,3 +23,12 @@ def replaced_file(path: str, mode: str = 'w'):
         if os.path.exists(partial_path):
             os.remove(partial_path)
         raise
+
+
+def make_dir(path: str) -> None:
+    """Create the directory if it does not exist yet."""
+    try:
+        os.mkdir(path)
+    except FileExistsError:
+        # Possibly created by another process in the meantime
+        pass
-- 
2.43.0


From 9d9225a8ea7a141239d38699778a672d5d656342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 56/92] fix: first load of data with numpy scalars or missing
 values fails

The next ones succeeded, reading what had been stored.
---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 8a81205..af47850 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -388,7 +388,7 @@ def lists_to_numpy_array(object: Any):
         }
     elif isinstance(object, (np.ndarray, list, pandas.Series)):
         return np.asarray(object)
-    elif isinstance(object, (str, int, float)):
+    elif isinstance(object, (str, int, float, np.generic)) or object is None:
         return object
 
     else:
-- 
2.43.0


From 16d2cf616fe66691d09c61374777a4014bfe027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 57/92] fix: climate and lighting data with numpy numbers
 cannot be stored

---
 demod/datasets/base_loader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index 1629770..51b7273 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -805,7 +805,7 @@ class ClimateLoader(DatasetLoader):
             self._warn_could_not_load_parsed(fnf_err, "temperatures_arma.json")
             geo_dic = self._parse_temperatures_arma()
             with replaced_file(file_path) as f:
-                json.dump(geo_dic, f)
+                json.dump(make_jsonable(geo_dic), f)
 
         return geo_dic
 
@@ -836,7 +836,7 @@ class ClimateLoader(DatasetLoader):
             self._warn_could_not_load_parsed(fnf_err, "geographic_data.json")
             geo_dic = self._parse_geographic_data()
             with replaced_file(file_path) as f:
-                json.dump(geo_dic, f)
+                json.dump(make_jsonable(geo_dic), f)
 
         return geo_dic
 
@@ -939,7 +939,7 @@ class LightingLoader(DatasetLoader):
             self._warn_could_not_load_parsed(fnf_err, "fisher_lighting.json")
             fisher_dic = self._parse_fisher_lighting()
             with replaced_file(file_path) as f:
-                json.dump(fisher_dic, f)
+                json.dump(make_jsonable(fisher_dic), f)
 
         return fisher_dic
 
@@ -1074,7 +1074,7 @@ class LightingLoader(DatasetLoader):
                     'std': std,
                 }
             with replaced_file(file_path) as f:
-                json.dump(dic, f)
+                json.dump(make_jsonable(dic), f)
 
         return dic['mean'], dic['std']
 
-- 
2.43.0


From 6daae91b8aa5e54967fd2d4341a2ec6ab241d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 58/92] fix: stored load profiles with an '&' in their name
 cannot be loaded

---
 demod/datasets/base_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index 51b7273..4a0f813 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -468,7 +468,8 @@ class ApplianceLoader(DatasetLoader):
             load_profiles_dict = {}
 
             for name, load in parsed_dict.items():
-                app_type, profile_name = str.split(name, self._SPLIT_CHAR)
+                app_type, profile_name = str.split(
+                    name, self._SPLIT_CHAR, 1)
                 if app_type not in load_profiles_dict:
                     load_profiles_dict[app_type] = {}
                 load_profiles_dict[app_type][profile_name] = load
-- 
2.43.0


From aa1e8b55f8bf2a6d9e3555fdf61f369f41fe086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 59/92] fix: downloads cut by the server are taken for complete

Reading a response in parts ends silently when the connection is closed early,
so half of a file was kept as the raw data of CREST, Renewables Ninja and
tracebase.
---
 demod/datasets/CREST/loader.py           | 4 ++--
 demod/datasets/RenewablesNinja/loader.py | 4 ++--
 demod/datasets/tracebase/loader.py       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 792e311..5a3cd94 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -5,7 +5,6 @@ Loads data from the crest spreadsheet.
 
 from datetime import time, timedelta
 from sys import version
-import shutil
 import warnings
 import os
 from urllib import request
@@ -102,7 +101,8 @@ class Crest(
             print('Downloading CREST Model to : {}'.format(self.raw_file_path))
             with request.urlopen(DOWNLOAD_URL_BY_VERSION[version]) as response:
                 with replaced_file(self.raw_file_path, 'wb') as f:
-                    shutil.copyfileobj(response, f)
+                    # Reads all at once: raises if the connection was cut
+                    f.write(response.read())
 
     def load_population_subgroups(
         self, population_type: str = "crest",
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index c271ae2..bd9e060 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -8,7 +8,6 @@ from datetime import timedelta
 import os
 from typing import Any, Dict
 import urllib.request
-import shutil
 import zipfile
 
 import numpy as np
@@ -114,7 +113,8 @@ class NinjaRenewablesClimate(ClimateLoader):
         # Reads the url and  download the
         with urllib.request.urlopen(request) as response:
             with replaced_file(self.raw_file_path, 'wb') as f:
-                shutil.copyfileobj(response, f)
+                # Reads all at once: raises if the connection was cut
+                f.write(response.read())
         print('download finished')
         # Now the file is downloaded, we can remove old parsed data
         for f in os.listdir(self.parsed_path_climate):
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index fad4f00..4953f7f 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -16,7 +16,6 @@ ICT for Sustainability (SustainIT), 2012.
 from datetime import datetime, timedelta
 import os
 import urllib.request
-import shutil
 from typing import Any
 import zipfile
 
@@ -126,7 +125,8 @@ class Tracebase(ApplianceLoader):
             with  urllib.request.urlopen(download_url) as response:
                 # The zip is there only once downloaded and extracted
                 with replaced_file(raw_zip_filepath, 'w+b') as f:
-                    shutil.copyfileobj(response, f)
+                    # Reads all at once: raises if the connection was cut
+                    f.write(response.read())
                     with zipfile.ZipFile(f, 'r') as zip_obj:
                         zip_obj.extractall(self.raw_path)
 
-- 
2.43.0


From 58d0dea5e57370226a701802caa8c6ed109126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 60/92] fix: Renewables Ninja weightings share their parsed
 data

Once both raw files were downloaded, the climate of the weighting parsed first
was returned for the other one.
---
 demod/datasets/RenewablesNinja/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index bd9e060..9e912c7 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -67,7 +67,10 @@ class NinjaRenewablesClimate(ClimateLoader):
         super().__init__(**kwargs)
         # Creates the path for the requested country
         self.parsed_path_climate = os.path.join(
-            self.parsed_path_climate, country_name)
+            self.parsed_path_climate,
+            country_name if weighted_type == 'population'
+            else country_name + '_' + weighted_type
+        )
         # creates the parsed path
         make_dir(self.parsed_path_climate)
         # Creates the raw path
-- 
2.43.0


From 16e0db85372ab47e180b67a53e85489b06ddb204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:47 +0000
Subject: [PATCH 61/92] fix: tracebase update_raw_data fails when nothing was
 downloaded yet

---
 demod/datasets/tracebase/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 4953f7f..75bc4dc 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -115,7 +115,7 @@ class Tracebase(ApplianceLoader):
         make_dir(self.raw_path)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
-        if update_raw_data:
+        if update_raw_data and os.path.isfile(raw_zip_filepath):
             os.remove(raw_zip_filepath)
         if not os.path.isfile(raw_zip_filepath):
             download_url = 'https://github.com/areinhardt/tracebase/archive/refs/heads/master.zip'
-- 
2.43.0


From c6523e88fcb8aa061f2e898e12fea76434ca3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:50 +0000
Subject: [PATCH 62/92] fix: arrays truncated by a full disk are taken for the
 parsed data

numpy does not report the errors of its last write to a real file.
---
 demod/datasets/GermanTOU/loader.py | 2 +-
 demod/datasets/tracebase/loader.py | 2 +-
 demod/utils/files.py               | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 7e3df2c..e121270 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -146,7 +146,7 @@ class GTOU(LoaderTOU, PopulationLoader):
                 raise e
         datatowrite = response.read()
         # The zip is there only once downloaded and extracted
-        with replaced_file(parsed_zip_filepath, 'w+b') as f:
+        with replaced_file(parsed_zip_filepath, 'wb') as f:
             f.write(datatowrite)
             with zipfile.ZipFile(f, 'r') as zip_obj:
                 zip_obj.extractall(self.parsed_path_activity)
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 75bc4dc..ad925ec 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -124,7 +124,7 @@ class Tracebase(ApplianceLoader):
             # Reads the url and  download the zip archive
             with  urllib.request.urlopen(download_url) as response:
                 # The zip is there only once downloaded and extracted
-                with replaced_file(raw_zip_filepath, 'w+b') as f:
+                with replaced_file(raw_zip_filepath, 'wb') as f:
                     # Reads all at once: raises if the connection was cut
                     f.write(response.read())
                     with zipfile.ZipFile(f, 'r') as zip_obj:
diff --git a/demod/utils/files.py b/demod/utils/files.py
index 8030f71..7d9776c 100644
--- a/demod/utils/files.py
+++ b/demod/utils/files.py
@@ -1,5 +1,6 @@
 """Helpers for writing files."""
 from contextlib import contextmanager
+import io
 import os
 
 
@@ -15,9 +16,12 @@ def replaced_file(path: str, mode: str = 'w'):
         mode: The mode to open the file. Defaults to 'w'.
     """
     partial_path = '{}.{}.part'.format(path, os.getpid())
+    # In memory, as numpy does not notice all errors writing to a real file
+    content = io.BytesIO() if 'b' in mode else io.StringIO()
+    yield content
     try:
         with open(partial_path, mode) as f:
-            yield f
+            f.write(content.getvalue())
         os.replace(partial_path, path)
     except BaseException:
         if os.path.exists(partial_path):
-- 
2.43.0


From 717e1fdab2465a8be40d52f93e46cd4967ed8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 63/92] fix: appliance simulators modify the subgroups of the
 caller

---
 demod/simulators/appliance_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 4281902..8585631 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -299,7 +299,8 @@ class AppliancesSimulator(TimeAwareSimulator):
                 "the sum of 'n_households_list' "
             )
 
-        self.subgroups_list = subgroups_list
+        # The subgroups are updated with the time during the simulation
+        self.subgroups_list = [dict(s) for s in subgroups_list]
 
         n_households_list = np.array(n_households_list, dtype=int)
         # keep in memory from which subgroup the hh are
-- 
2.43.0


From 3b2ecfecec2c9fc05fcd8859974af1c4995b2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 64/92] fix: appliance simulators modify the appliances of the
 dataset

---
 demod/simulators/appliance_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 8585631..3211b93 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -124,7 +124,8 @@ class AppliancesSimulator(TimeAwareSimulator):
             :py:meth:`sample_real_load_profiles`
         """
         super().__init__(n_households, **kwargs)
-        self.appliances = appliances_dict
+        # The simulator adds its own information to the dictionary
+        self.appliances = dict(appliances_dict)
 
         # give appliances to the households
         self.available_appliances = self.sample_available_appliances(
-- 
2.43.0


From 7aae60ec667e0757480b16030e82a5e6feeccc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:17 +0000
Subject: [PATCH 65/92] fix: probabilistic appliances are inverted in the
 dictionary of the dataset

---
 demod/simulators/appliance_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 3211b93..bbb2af0 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1616,6 +1616,8 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         appliance_dict: AppliancesDict,
         initial_activities_dict: ActivitiesDict
     ) -> AppliancesDict:
+        # The dataset keeps its own dictionary
+        appliance_dict = dict(appliance_dict)
         # Check if probabilistic is given, else assume all appliances are it.
         if 'probabilistic' not in appliance_dict:
             warnings.warn((
-- 
2.43.0


From 8e26d3bc10181c4c4443142c52bdaa3574edaaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:36 +0000
Subject: [PATCH 66/92] fix: interpolated climate removes the times from the
 data of the dataset

---
 demod/simulators/weather_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 2a232e0..8488dfc 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -734,7 +734,8 @@ class RealInterpolatedClimate(ClimateSimulator):
 
         self.data = data
 
-        climate_dict = data.load_historical_climate_data(start_datetime)
+        # The dataset keeps its own dictionary
+        climate_dict = dict(data.load_historical_climate_data(start_datetime))
 
         super().__init__(start_datetime=start_datetime, **kwargs)
 
-- 
2.43.0


From bc3399ac033e501ef792edbf2577fb6438062eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 67/92] fix: counts_to_pdf modifies the counts given

---
 demod/utils/parse_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index af47850..d59178c 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -596,6 +596,7 @@ def counts_to_pdf(counts: np.ndarray, ensure_valid_pdf=True):
         indexes_zeros = list(np.where(s == 0))
         indexes_zeros.append(np.zeros_like(indexes_zeros[0]))
         # Corrects where there are zeros that should be converted
+        counts = np.array(counts)
         counts[tuple(indexes_zeros)] = 1
 
     # Prepare sum for broadcasting
-- 
2.43.0


From 6f9efbdacd60483c356652f871a3973b2ad7016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 68/92] fix: IndexError instead of NotImplementedError for
 versions without Fisher lighting data

---
 demod/datasets/Germany/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/Germany/loader.py b/demod/datasets/Germany/loader.py
index 6a8871a..c9a8e4a 100644
--- a/demod/datasets/Germany/loader.py
+++ b/demod/datasets/Germany/loader.py
@@ -186,7 +186,7 @@ class GermanDataHerus(
                 (
                     "'_parse_fisher_lighting' is not implemented for {}"
                     ", version '{}'."
-                ).format(type(self).__name__)
+                ).format(type(self).__name__, self.version)
             )
 
     def _parse_crest_lighting(self) -> Dict[str, Any]:
-- 
2.43.0


From 253446f4dee26415a04d773840f53682492b128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 69/92] fix: occupancy of the German TOU takes the ranks of the
 home ratings for the ratings

---
 demod/datasets/GermanTOU/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index c57ed18..8e4263c 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1546,9 +1546,9 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         There is no guarantee on the validity of this, but results seems ok
     """
     # convert the states to their home indice rating
-    main_rating, _         = convert_states(primary_states, dic_home)
-    secondary_rating, _    = convert_states(secondary_states, dic_home)
-    home_ratings = main_rating + secondary_rating
+    main_states, main_ratings = convert_states(primary_states, dic_home)
+    secondary_states_, secondary_ratings = convert_states(secondary_states, dic_home)
+    home_ratings = main_ratings[main_states] + secondary_ratings[secondary_states_]
 
     #initialize the occupancy
     current_occupancy= np.zeros_like(initial_occupancy, dtype=bool)
-- 
2.43.0


From 19d8e8049320ea08b055b86accba0c662ff4cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 70/92] fix: occupancy of the German TOU never notices the end
 of a travel

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 8e4263c..09918f8 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1590,7 +1590,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
 
         #
-        mask_travelling = np.array(mask_was_travelling)
+        mask_was_travelling = mask_travelling
         occupancies.append(np.array(current_occupancy))
 
     return np.asarray(occupancies).T
-- 
2.43.0


From 2eb7c7f7f695de4b8f60d1d66d017d40e89f0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 71/92] fix: German TOU diaries of unknown end finish at home
 doing activities away from home

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 09918f8..06d5c4b 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1587,7 +1587,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == 1)] = True
         current_occupancy[mask_after_last_travel & (final_occupancy == 2)] = False
         # keine angabe gets the last value probability
-        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
+        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)] >= 0
 
         #
         mask_was_travelling = mask_travelling
-- 
2.43.0


From a456b3f4c68e8933d8779108c64d4e1a6703b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 72/92] fix: final location of German TOU diaries read from the
 previous day

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 06d5c4b..fd232ff 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -50,7 +50,7 @@ travelling          = np.array(df_akt['tc5'])
 initial_location    = np.array(df_akt['tc7'])
 final_location      = np.array(df_akt['tc8'])
 # 'trifft nicht zu' = -2 and means that the start location of the next day should be used
-final_location[final_location==-2] = np.roll(initial_location, 1)[final_location==-2]
+final_location[final_location==-2] = np.roll(initial_location, -1)[final_location==-2]
 
 # get a link between df_akt and df_pers
 df_akt_index_person = np.array([np.where(df_pers['id_persx'] == i)[0][0] for i in df_akt['id_persx']])
-- 
2.43.0


From 9470d3454249fe8ec0aad0e3f94e00ab5ea61e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 73/92] fix: secondary activities of the German TOU are never
 used

---
 demod/datasets/GermanTOU/loader.py | 16 +++++++++++-----
 demod/datasets/GermanTOU/parser.py | 10 ++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index e121270..2c4eb60 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -264,7 +264,9 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         return_hh will also return the household id
         """
-        from .parser import primary_states, occ, get_mask_subgroup
+        from .parser import (
+            primary_states, secondary_states, occ, get_mask_subgroup
+        )
 
         # Sets some information on activity for the loading
         self._load_rawdata_info()
@@ -292,9 +294,10 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         if self.use_secondary_states:
             # Gets the secondary states
-            raw_sec_states = primary_states[mask_subgroup]
+            raw_sec_states = secondary_states[mask_subgroup]
             sec_states, sec_states_label = convert_states(
-                raw_sec_states, activity_dict
+                # 0 means that there is no secondary activity
+                raw_sec_states, {**activity_dict, 0: 'other'}
             )
             sec_states_label[sec_states_label=='-'] = 'other'
             # Find where to replace
@@ -303,8 +306,11 @@ class GTOU(LoaderTOU, PopulationLoader):
                 & (sec_states_label[sec_states] != 'other')
             )
             # Recontruct a states array with the secondary states
-            raw_act_array = states_label[states]
-            raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+            raw_act_array = np.where(
+                mask_can_replace,
+                sec_states_label[sec_states],
+                states_label[states]
+            )
             # Finds back in states format
             states, states_label = convert_states(raw_act_array)
 
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index fd232ff..25538b1 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1765,9 +1765,10 @@ def get_tpms_activity(
 
     if use_sec_states:
         # Gets the secondary states
-        raw_sec_states = primary_states[mask_subgroup]
+        raw_sec_states = secondary_states[mask_subgroup]
         sec_states, sec_states_label = convert_states(
-            raw_sec_states, activity_dict
+            # 0 means that there is no secondary activity
+            raw_sec_states, {**activity_dict, 0: 'other'}
         )
         sec_states_label[sec_states_label=='-'] = 'other'
         # Find where to replace
@@ -1776,8 +1777,9 @@ def get_tpms_activity(
             & (sec_states_label[sec_states] != 'other')
         )
         # Recontruct a states array with the secondary states
-        raw_act_array = states_label[states]
-        raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+        raw_act_array = np.where(
+            mask_can_replace, sec_states_label[sec_states], states_label[states]
+        )
         # Finds back in states format
         states, states_label = convert_states(raw_act_array)
 
-- 
2.43.0


From f632a44325376059dd421a710ae5724cae830460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 74/92] fix: numbers of daily activity starts of the German TOU
 are no distribution

---
 demod/datasets/GermanTOU/loader.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 2c4eb60..7439ee2 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -355,38 +355,32 @@ class GTOU(LoaderTOU, PopulationLoader):
     ) -> Dict[str, np.ndarray]:
         """Parse the number of times an activity starts in the diaries."""
 
-        states, hh_id, day_id = self.get_states(
-            subgroup, return_hh=True, return_day=True
-        )
+        states = self.get_states(subgroup)
         # Converts the states to transitions
         transitions_dict = states_to_transitions(states)
-        # Find in which household and which recorded day the diary was
-        transitions_dict['hh_day'] = (
-            # Samll trick to get unique hh and day transitions (day_id = 1, 2 or 3)
-            hh_id[transitions_dict['persons']] * 4
-            + day_id[transitions_dict['persons']]
-        )
 
         daily_starts = {
-            act: np.bincount(  # Counts the number of persons starting i times
-                    np.bincount(  # Counts how many time each household start act
-                        transitions_dict['hh_day'][
+            act: np.bincount(  # Counts the number of diaries starting i times
+                    np.bincount(  # Counts how many time each diary start act
+                        transitions_dict['persons'][
                             transitions_dict['new_states'] == act
-                        ]
+                        ],
+                        minlength=len(states)
                     )
                 ).astype(float) / len(states)  # Convert to probs
             for act in np.unique(transitions_dict['new_states'])
         }
         # Special case: active occupancy
         daily_starts['active_occupancy'] = np.bincount(
-            # Counts the number of persons starting i times
-            np.bincount(  # Counts how many time each household start act
-                transitions_dict['hh_day'][
+            # Counts the number of diaries starting i times
+            np.bincount(  # Counts how many time each diary start act
+                transitions_dict['persons'][
                     # Active occupancy start when someone wakes up or comes back
                     # BUT Does not take into account sleeping away from home ...
                     (transitions_dict['new_states'] == 'sleeping')
                     | (transitions_dict['new_states'] == 'away')
-                ]
+                ],
+                minlength=len(states)
         )).astype(float) / len(states)  # Convert to probs
 
         return daily_starts
-- 
2.43.0


From 520802a36bac5cd070ecad23444ab2698e1fe071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 75/92] fix: activities without any diary are repeated in the
 labels of the German TOU

---
 demod/datasets/GermanTOU/loader.py | 2 +-
 demod/datasets/GermanTOU/parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 7439ee2..b8d8165 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -316,7 +316,7 @@ class GTOU(LoaderTOU, PopulationLoader):
 
 
         # Adds missing activities from dict to states labels
-        all_activities = np.array(list(activity_dict.values()))
+        all_activities = np.unique(list(activity_dict.values()))
         missing_act = all_activities[~np.isin(all_activities, states_label)]
         states_label = np.concatenate((states_label, missing_act))
 
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 25538b1..3da06a4 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1785,7 +1785,7 @@ def get_tpms_activity(
 
 
     # Adds missing activities from dict to states labels
-    all_activities = np.array(list(activity_dict.values()))
+    all_activities = np.unique(list(activity_dict.values()))
     missing_act = all_activities[~np.isin(all_activities, states_label)]
     states_label = np.concatenate((states_label, missing_act))
 
-- 
2.43.0


From 0747ae038484fdae43df86d278745b771063a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 76/92] fix: activity probabilities of subgroups never away or
 never sleeping

---
 demod/datasets/GermanTOU/loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index b8d8165..7b834d9 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -397,8 +397,9 @@ class GTOU(LoaderTOU, PopulationLoader):
         # adds the active occupancy
         activity_probabilities['active_occupancy'] = np.clip(
             1.
-            -  activity_probabilities['away']
-            -  activity_probabilities['sleeping'],
+            -  activity_probabilities.get('away', 0.)
+            -  activity_probabilities.get('sleeping', 0.)
+            * np.ones(states.shape[1]),
             0., 1.
         )
 
-- 
2.43.0


From 7aa18160dd29234673d7ece3f679a16dfeec195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 77/92] fix: tuples cannot be written as json (subgroups with a
 range of ages)

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index d59178c..b330567 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -322,7 +322,7 @@ def make_jsonable(object: Any):
             make_jsonable(key): make_jsonable(item)
             for key, item in object.items()
         }
-    elif isinstance(object, (np.ndarray, list, pandas.Series)):
+    elif isinstance(object, (np.ndarray, list, tuple, pandas.Series)):
         return [make_jsonable(elem) for elem in object]
     elif isinstance(object, (str, int, float)):
         return object
-- 
2.43.0


From 2e40323b862b179f4f170c4b6ee95547d2de3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 78/92] fix: activity appliances miss the changes of activities
 given in the same arrays

---
 demod/simulators/appliance_simulators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index bbb2af0..2976fb8 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1392,7 +1392,9 @@ class ActivityApplianceSimulator(AppliancesSimulator):
             self.available_appliances, dtype=bool
         )
         super().initialize_starting_state(self, **kwargs)
-        self.previous_act_dict = initial_activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in initial_activities_dict.items()
+        }
 
         # Records the position in the pattern of this appliance
         for act, n_performing in initial_activities_dict.items():
@@ -1472,7 +1474,9 @@ class ActivityApplianceSimulator(AppliancesSimulator):
                     & mask_apps_this_act[np.newaxis, :]
                 ))
 
-        self.previous_act_dict = activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in activities_dict.items()
+        }
 
         # The variables of the appliances are already updated
         super(AppliancesSimulator, self).step()
@@ -1788,7 +1792,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         TODO: implement a good initialization.
         """
         # Remember the previous activities
-        self.previous_act_dict = initial_activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in initial_activities_dict.items()
+        }
 
         super().initialize_starting_state(self, **kwargs)
 
@@ -1879,7 +1885,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                     can_start_app[mask_start]
                 )
 
-        self.previous_act_dict = activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in activities_dict.items()
+        }
 
         super().step()
 
-- 
2.43.0


From d2f46688a8123c5b570cd7a7d3ebf96710879405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 79/92] fix: variable thermostats keep the initial occupancy in
 the array of the caller

---
 demod/simulators/heating_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index a941996..845d51b 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -200,8 +200,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
         """
         super().__init__(n_households, *args, **kwargs)
         self.attribute_patterns(pattern_attribution_method)
-        self.last_occupancy = initial_occupancy
-        self.last_act_occ = initial_act_occ
+        self.last_occupancy = np.array(initial_occupancy)
+        self.last_act_occ = np.array(initial_act_occ)
         self.time = start_datetime
         self.initialize_starting_state(0)
 
-- 
2.43.0


From b33ebe6191b206feb7f09a7eb0d1f1f87f9400d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 80/92] fix: extreme and unreplaced draws of a sparse TPM stay
 in the row of their own state

---
 demod/utils/sparse.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d108ca..ed0e622 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -181,9 +181,8 @@ class SparseTPM():
         # print('times, states', time, states)
 
         # gets the pdf that we want
-        pdf_indices, inv = np.unique(states, return_inverse=True)
+        pdf_indices = np.unique(states)
         # get mask of the pdfs we required
-        # print('pdf_ind, inv', pdf_indices, inv)
         # print('states from available ', self.inds_from[self.times == time])
         mask = (self.times == time) & (np.isin(self.inds_from, pdf_indices))
         # assume states has no dead states
@@ -200,16 +199,26 @@ class SparseTPM():
         # compute a flattened cdf containing all the states cdf
         # (the states must follow each other in the order of pdf_indices)
         order = np.argsort(self.inds_from[mask], kind='stable')
+        origins = self.inds_from[mask][order]
         flattened_cdf = np.cumsum(self.values[mask][order])
         # print('cdf',flattened_cdf)
 
         # monte carlo part
         # sample the random values, and add their location in the flattened cdf
-        rand = np.random.uniform(size=states.shape) + inv
+        rand = (
+            np.random.uniform(size=states.shape)
+            + np.searchsorted(np.unique(origins), states)
+        )
         # print('r', rand)
         # look for the position in the array
-        new_states = self.inds_to[mask][order][
-            np.searchsorted(flattened_cdf, rand)]
+        positions = np.searchsorted(flattened_cdf, rand, side='right')
+        # the extreme draws stay among the transitions of their own state
+        positions = np.clip(
+            positions,
+            np.searchsorted(origins, states),
+            np.searchsorted(origins, states, side='right') - 1
+        )
+        new_states = self.inds_to[mask][order][positions]
         # print('new states', new_states)
         return np.array(new_states)
 
-- 
2.43.0


From f6061aecd56595aac70bf4606f6e403a8e57a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 81/92] fix: CREST refuses unknown population types with its
 message

---
 demod/datasets/CREST/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 5a3cd94..5d0b783 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -154,7 +154,9 @@ class Crest(
 
         else:
             raise ValueError(
-                UNKOWN_POPULATION_TYPE.format(population_type, self)
+                UNKOWN_POPULATION_TYPE.format(
+                    population_type=population_type, dataset=self
+                )
             )
 
         return subgroups, pdf, 25e6  # estimate
-- 
2.43.0


From ed805c89be2746b0f65db89dc567c0b08c3c4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 82/92] fix: the CREST dishwasher goes on when the occupants
 leave

---
 demod/datasets/CREST/loader.py                            | 8 +++-----
 .../datasets/CREST/parsed_data/v_2.2/appliance_dict.json  | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 5d0b783..9b8dda4 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -334,11 +334,9 @@ class Crest(
         )
 
         appliances["inactive_switch_off"] = np.where(
-            np.logical_or(
-                associated_activity_use_profile == "ACT_WASHDRESS",
-                associated_activity_use_profile == "LEVEL",
-                appliances["name"] == "DISH_WASHER",
-            ),
+            (associated_activity_use_profile == "ACT_WASHDRESS")
+            | (associated_activity_use_profile == "LEVEL")
+            | (appliances["name"] == "DISH_WASHER"),
             False,
             True,
         )
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json b/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
index 913b44d..2fb90a3 100644
--- a/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
+++ b/demod/datasets/CREST/parsed_data/v_2.2/appliance_dict.json
@@ -172,7 +172,7 @@
     true,
     true,
     true,
-    true,
+    false,
     true,
     true,
     true,
-- 
2.43.0


From 74eab613ec337ec99a88362e5517fd989cceb351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 83/92] fix: CREST water volumes are not truncated when the
 flows are integers

---
 demod/datasets/CREST/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 9b8dda4..dab0e67 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -364,7 +364,7 @@ class Crest(
 
         if self.version in (["v_2.2", "v_2.3.3"]):
             appliances["poisson_sampling_lambda_liters"] = np.zeros_like(
-                appliances["mean_water_consumption"]
+                appliances["mean_water_consumption"], dtype=float
             )
             appliances["poisson_sampling_lambda_liters"][-1] = 73.3  # bath
             appliances["poisson_sampling_lambda_liters"][-2] = 25.7  # shower
-- 
2.43.0


From babe76e0fa820f38ac6f96ce6b388a2391b7222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 84/92] fix: plot_column draws loggers of one attribute and
 loggers without the time

---
 demod/simulators/base_simulators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index b242b4d..ce895ee 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -280,12 +280,15 @@ class SimLogger():
             n_plots -= 1
             x_ticks = self.get('current_time')
         else:
-            x_ticks = np.arange(0, self.length)
+            # As in get, the last point is removed
+            x_ticks = np.arange(0, self.length - 1)
 
         fig, axes = plt.subplots(
             nrows=n_plots,
-            sharex=True
+            sharex=True,
+            squeeze=False
         )
+        axes = axes[:, 0]
         plt.subplots_adjust(hspace=0)
 
 
-- 
2.43.0


From 231d3640312df2b2e1cffd832ee07911a8f0b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 85/92] fix: SimLogger.plot draws dictionaries that are not
 aggregated

---
 demod/simulators/base_simulators.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index ce895ee..118f092 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -381,14 +381,24 @@ class SimLogger():
             if attr == 'current_time': continue
             serie = self.get(attr)
 
-            if not aggr and (len(serie.shape) > 1):
-                if aggregate:
-                    # sum over the households
-                    self._plot_single(np.sum(serie, axis=1), attr)
-                else:
-                    self._plot_all_households(serie, attr)
+            # Splits the arrays of the dictionary
+            if isinstance(serie, dict):
+                series = {
+                    '{}_{}'.format(attr, key): ser
+                    for key, ser in serie.items()
+                }
             else:
-                self._plot_single(serie, attr)
+                series = {attr: serie}
+
+            for lab, ser in series.items():
+                if not aggr and (len(ser.shape) > 1):
+                    if aggregate:
+                        # sum over the households
+                        self._plot_single(np.sum(ser, axis=1), lab)
+                    else:
+                        self._plot_all_households(ser, lab)
+                else:
+                    self._plot_single(ser, lab)
 
             plt.legend()
             plt.show()
-- 
2.43.0


From 01cca20678d9765c267e17c4c9e04f63837f6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 86/92] fix: the legend of plot_household_activities counts the
 residents of every main state

---
 demod/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index 9176771..c6d37e1 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -112,7 +112,7 @@ def plot_household_activities(
     for j, key in enumerate(labels_main):
         scatter(dict_states[key], i+j)
         labels.append(key)
-        max_number = max(max_number, max(array))
+        max_number = max(max_number, max(dict_states[key]))
 
     ax.set_yticks(np.arange(0, len(labels)))
     ax.set_yticklabels(labels)
-- 
2.43.0


From 1bcf51d17299618cc976a62d5e928cbcbbd67910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 87/92] fix: stack plots use the arguments they are given

---
 demod/utils/plotters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index c6d37e1..e79b5cf 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -201,7 +201,8 @@ def plot_stack_states(
     ax.stackplot(
         np.arange(0, states.shape[1]),  # Create an x axis
         stacked_states,
-        labels=labels
+        labels=labels,
+        **kwargs
     )
     handles, lab = ax.get_legend_handles_labels()
     # Reverse the legend, so they follow the states order
@@ -240,7 +241,7 @@ def plot_stacked_activities(
         time_axis,
         dict_states.values(),
         labels=dict_states.keys(),
-        step='post',
+        step=step,
         **kwargs
     )
     # Reverse the legend, in the same way as they are stacked
-- 
2.43.0


From 022ad007ad9c11057c472970791b110fbd90a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 88/92] fix: country names are accepted with a capital letter,
 as in the quickstart

---
 demod/datasets/OpenPowerSystems/loader.py | 2 +-
 demod/utils/countries.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/OpenPowerSystems/loader.py b/demod/datasets/OpenPowerSystems/loader.py
index 9f32196..8aa5824 100644
--- a/demod/datasets/OpenPowerSystems/loader.py
+++ b/demod/datasets/OpenPowerSystems/loader.py
@@ -35,7 +35,7 @@ class OpenPowerSystemClimate(ClimateLoader):
         super().__init__(allow_pickle=False, version=None)
         # Creates the path for the requested country
         self.parsed_path_climate = os.path.join(
-            self.parsed_path_climate, country_name)
+            self.parsed_path_climate, country_name.lower())
         # creates the parsed path
         make_dir(self.parsed_path_climate)
 
diff --git a/demod/utils/countries.py b/demod/utils/countries.py
index 17c8bfd..cdcebbc 100644
--- a/demod/utils/countries.py
+++ b/demod/utils/countries.py
@@ -21,7 +21,7 @@ def country_name_to_code(country_name: str) -> str:
     }
 
     try:
-        code = dic[country_name]
+        code = dic[country_name.lower()]
     except KeyError as key_err:
         raise NotImplementedError(
             'Must provide a country conversion to code.') from key_err
-- 
2.43.0


From 2874d31dea66e35dd65f31c9a62857c33b8d05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 89/92] fix: SparseStatesSimulator checks its transition
 matrices by default instead of failing

---
 demod/utils/sparse.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index ed0e622..1c24fff 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -222,6 +222,28 @@ class SparseTPM():
         # print('new states', new_states)
         return np.array(new_states)
 
+    def check_valid_cdf(self, epsilon: float = 1e-6) -> bool:
+        """Check that the transitions from every state sum up to 1.
+
+        The states without transitions at a time (dead states) are accepted.
+
+        Args:
+            epsilon: Tolerance on the sums. Defaults to 1e-6.
+
+        Raises:
+            ValueError: If probabilities are negative or do not sum up to 1.
+        """
+        if np.any(self.values < 0):
+            raise ValueError('Some transition probabilities are negative')
+        origins = self.times.astype(int) * self.n_states + self.inds_from
+        _, inverse = np.unique(origins, return_inverse=True)
+        sums = np.bincount(inverse, weights=self.values)
+        if np.any(np.abs(sums - 1.0) > epsilon):
+            raise ValueError(
+                'Some transition probabilities do not sum up to 1'
+            )
+        return True
+
     def save(self, path: str) -> None:
         """Save the TPM at the specified path.
 
-- 
2.43.0


From 189ec213c02f8ef93a7ddf8e1a449d4067f7ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:47 +0000
Subject: [PATCH 90/92] fix: changes and errors of unsigned or small integer
 arrays wrapped around

---
 demod/metrics/errors.py | 3 ++-
 demod/metrics/loads.py  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/metrics/errors.py b/demod/metrics/errors.py
index b76918b..042b18d 100644
--- a/demod/metrics/errors.py
+++ b/demod/metrics/errors.py
@@ -18,4 +18,5 @@ def RMSE(x1: np.ndarray, x2: np.ndarray) -> float:
     Returns:
         rmse: The RMSE between x1 and x2.
     """
-    return np.sqrt(np.mean((x1 - x2)**2))
+    # floats, as small or unsigned integers would overflow
+    return np.sqrt(np.mean(np.subtract(x1, x2, dtype=float)**2))
diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index b15d09b..aac00f7 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -167,6 +167,8 @@ def cumulative_changes_in_demand(
           Return the bin edges (length(hist)+1).
 
     """
+    # Unsigned integers cannot store negative changes
+    profiles = np.asarray(profiles, dtype=float)
     # Take the absolute changes and remove the last change
     changes = np.abs(profiles - np.roll(profiles, -1, axis=1))[:, :-1]
 
-- 
2.43.0


From e57d1f65bb93fa66496a0eff85ecf94ad35adde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:52 +0000
Subject: [PATCH 91/92] fix: external values truncated to integers when they
 replace integers

---
 demod/simulators/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 15cfac0..668fa87 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -34,7 +34,9 @@ def assign_external_array(
     """
     if external_array is None:
         return base_array
-    out = np.array(base_array)
+    # an array of integers can get values that are not integers
+    out = np.array(
+        base_array, dtype=np.result_type(base_array, external_array))
     external_array = np.broadcast_to(external_array, out.shape)
     mask_not_nan = ~np.isnan(external_array)
     out[mask_not_nan] = external_array[mask_not_nan]
-- 
2.43.0


From 3687726640ab8b510e8303f21183519b1c450e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 92/92] fix: parsed climate data outliving an interrupted
 update of the raw data

---
 demod/datasets/RenewablesNinja/loader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 9e912c7..d196aeb 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -118,10 +118,11 @@ class NinjaRenewablesClimate(ClimateLoader):
             with replaced_file(self.raw_file_path, 'wb') as f:
                 # Reads all at once: raises if the connection was cut
                 f.write(response.read())
+                # Now the file is downloaded, we can remove old parsed data,
+                # before the new raw data is there to be parsed
+                for name in os.listdir(self.parsed_path_climate):
+                    os.remove(os.path.join(self.parsed_path_climate, name))
         print('download finished')
-        # Now the file is downloaded, we can remove old parsed data
-        for f in os.listdir(self.parsed_path_climate):
-            os.remove(os.path.join(self.parsed_path_climate, f))
 
 
 
-- 
2.43.0

