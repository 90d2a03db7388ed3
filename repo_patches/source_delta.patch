From 571c147ca3c7cbd9c629a833f79e631fca932d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 1/8] fix: impressions_by_spend must search the sorted log

The spends searched by bisect were taken from the unsorted input.
---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From d901b933fb6b37df47c0a2924f37ab3ec842c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 2/8] fix: unnamed DataSet raised NameError (randint was not
 imported)

---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..a774a28 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From 35ec8a97819b03eb97bd698c3b448474b7113bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 3/8] fix: publisher names survive writing and reading a data
 set

read_data_set used the whole path as the publisher name, so a data set
that was read back could not be written elsewhere.
---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index a774a28..f8b089f 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -272,7 +272,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From 8c0847a2505ddc3de6ed8fa14b052f8c2acaecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 4/8] fix: uniform test points honour the minimum number of
 points

---
 src/driver/uniformly_random_test_point_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/uniformly_random_test_point_generator.py b/src/driver/uniformly_random_test_point_generator.py
index da57b74..a7857c3 100644
--- a/src/driver/uniformly_random_test_point_generator.py
+++ b/src/driver/uniformly_random_test_point_generator.py
@@ -70,5 +70,5 @@ class UniformlyRandomTestPointGenerator(TestPointGenerator):
           surface.
         """
         num_points = max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS)
-        for i in range(self._npoints):
+        for i in range(num_points):
             yield list(self._max_spends * self._rng.random(size=self._npublishers))
-- 
2.43.0


From 2def36c9615a6dbc791bcd6dd9462168828ada71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 5/8] fix: latin hypercube test points are a function of the
 given rng

pyDOE.lhs draws from numpy's global random state, so equal generators
produced different points.
---
 .../latin_hypercube_random_test_point_generator.py    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/driver/latin_hypercube_random_test_point_generator.py b/src/driver/latin_hypercube_random_test_point_generator.py
index f5cfe4b..9cfa87a 100644
--- a/src/driver/latin_hypercube_random_test_point_generator.py
+++ b/src/driver/latin_hypercube_random_test_point_generator.py
@@ -78,7 +78,16 @@ class LatinHypercubeRandomTestPointGenerator(TestPointGenerator):
             max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS),
             MAXIMUM_NUMBER_OF_TEST_POINTS,
         )
-        design = pyDOE.lhs(n=self._npublishers, samples=num_points, criterion="maximin")
+        # pyDOE draws from numpy's global random state, so it is seeded from rng
+        # for the duration of the call.
+        saved_state = np.random.get_state()
+        np.random.seed(self._rng.integers(2 ** 32 - 1))
+        try:
+            design = pyDOE.lhs(
+                n=self._npublishers, samples=num_points, criterion="maximin"
+            )
+        finally:
+            np.random.set_state(saved_state)
         design = design[self._rng.permutation(num_points), :][
             :, self._rng.permutation(self._npublishers)
         ]
-- 
2.43.0


From 7af5b5a8a16cf69ee5c61b8511f77aaca26d09f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:07 +0000
Subject: [PATCH 6/8] fix: restricted pairwise step keeps a coordinate the loss
 does not depend on

Dividing by the zero squared norm produced NaN interactions, hence NaN
reach predictions, e.g. when all training points have one active publisher.
---
 src/models/restricted_pairwise_union_reach_surface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/restricted_pairwise_union_reach_surface.py b/src/models/restricted_pairwise_union_reach_surface.py
index 3dcb6c1..68d72be 100644
--- a/src/models/restricted_pairwise_union_reach_surface.py
+++ b/src/models/restricted_pairwise_union_reach_surface.py
@@ -227,7 +227,11 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         """
         us = np.array([self._compute_u(lbd, i, D) for D in self._Ds])
         vs = np.array([self._compute_v(lbd, i, D) for D in self._Ds])
-        lbd_i_hat = np.inner(np.array(self._ys) - us, vs) / np.inner(vs, vs)
+        squared_norm = np.inner(vs, vs)
+        if squared_norm == 0:
+            # The loss does not depend on lbd[i].
+            return lbd[i]
+        lbd_i_hat = np.inner(np.array(self._ys) - us, vs) / squared_norm
         # The above line follows equation (4) in the algorithm description doc.
         if lbd_i_hat < 0:
             return 0
-- 
2.43.0


From 2e381538337b744690c0c11aec08382e5739367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:14 +0000
Subject: [PATCH 7/8] fix: inflated Gamma-Poisson tail no longer gets negative
 mass when the head takes almost all probability

---
 src/models/kinflated_gamma_poisson_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/models/kinflated_gamma_poisson_model.py b/src/models/kinflated_gamma_poisson_model.py
index ea407e3..2ecae21 100644
--- a/src/models/kinflated_gamma_poisson_model.py
+++ b/src/models/kinflated_gamma_poisson_model.py
@@ -16,6 +16,7 @@
 from absl import logging
 import numpy as np
 import numpy.typing as npt
+import scipy.special
 import scipy.stats
 from typing import Iterable
 from typing import List
@@ -64,16 +65,18 @@ class KInflatedGammaPoissonDistribution:
 
         n = len(a)
         s = np.sum(a)
-        t = np.sum(self._gamma_poisson_pmf(np.arange(1, n + 1), alpha, beta))
+        # This is 1 - t.  It is not computed as a difference because t can be so
+        # close to 1 that rounding errors would dominate the result.
+        tail = scipy.special.betainc(n, alpha, beta / (1.0 + beta)) if n else 1.0
         # Note that MAXIMUM_COMPUTATIONAL_FREQUENCY is a relatively large value such
         # that values of the PMF beyond this value can be ignored.
         u = self._gamma_poisson_pmf(
             np.arange(n + 1, MAXIMUM_COMPUTATIONAL_FREQUENCY), alpha, beta
         )
-        if t >= 1:
+        if tail < np.finfo(float).tiny:
             pmf_tail = 0.0 * u
         else:
-            pmf_tail = ((1 - s) / (1 - t)) * u
+            pmf_tail = ((1 - s) / tail) * u
         # self._pmf[n] = kGP(n | alpha, beta, a_1, ..., a_k)
         # Note, we prepend 0 to self._pmf to make indexing more convenient.
         self._pmf = np.array([0.0] + list(a) + list(pmf_tail))
-- 
2.43.0


From d81febee090b47b799c8231469fc11398bb87d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:39 +0000
Subject: [PATCH 8/8] fix: do not reuse a trial result whose saving was
 interrupted

A crash while the result file was being written left a partial CSV that
later evaluations returned as the trial's result. The pending marker is
still there in that case; reuse a stored result only without it.
---
 src/driver/experimental_trial.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..c985c75 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -148,7 +148,16 @@ class ExperimentalTrial:
         if trial_results_path.startswith("gs://"):
             filesystem.set_default_client_to_gs_client()
 
-        if filesystem.is_file(trial_results_path):
+        # The pending directory contains one entry for each currently executing
+        # experimental trial.  If a computation appears to hang, this can be
+        # used to check which evaluations are still pending.  A result that
+        # still has an entry there was not saved completely, so it is not reused.
+        experiment_dir_parent = filesystem.parent(self._experiment_dir)
+        pending_path = f"{experiment_dir_parent}/pending/{hashlib.md5(trial_results_path.encode()).hexdigest()}"
+
+        if filesystem.is_file(trial_results_path) and not filesystem.is_file(
+            pending_path
+        ):
             logging.vlog(2, "  --> Returning previously computed result")
             try:
                 with filesystem.open(trial_results_path) as file:
@@ -159,11 +168,6 @@ class ExperimentalTrial:
                     2, f"  --> {e}. Failed reading existing result. Re-evaluate."
                 )
 
-        # The pending directory contains one entry for each currently executing
-        # experimental trial.  If a computation appears to hang, this can be
-        # used to check which evaluations are still pending.
-        experiment_dir_parent = filesystem.parent(self._experiment_dir)
-        pending_path = f"{experiment_dir_parent}/pending/{hashlib.md5(trial_results_path.encode()).hexdigest()}"
         filesystem.mkdir(filesystem.parent(pending_path), parents=True, exist_ok=True)
         filesystem.write_text(
             pending_path,
-- 
2.43.0

