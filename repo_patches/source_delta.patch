From 1f6c73d39c8de5e878ae280545326482f98df391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 01/14] fix: use 1/(phi*size) in the Hessian of the ideal gas
 entropy

---
 flory/entropy/ideal_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/entropy/ideal_gas.py b/flory/entropy/ideal_gas.py
index ef4e69c..9e11a20 100644
--- a/flory/entropy/ideal_gas.py
+++ b/flory/entropy/ideal_gas.py
@@ -175,7 +175,7 @@ class IdealGasEntropyBase(EntropyBase):
             : The full Hessian.
         """
         # manually generate the matrix sine we assume no prior knowledge for the dimension of `phis``
-        ans_diag = 1.0 / phis * self._sizes
+        ans_diag = 1.0 / (phis * self._sizes)
         shape = list(ans_diag.shape)
         shape.append(self.num_comp)
         ans = np.zeros(shape)
-- 
2.43.0


From cf9809770eb7235ad3ddd08358c8cd9c25ab4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 02/14] fix: make chis_feat of the block interaction settable
 and symmetrizable

---
 flory/interaction/flory_huggins_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index e7b5dba..af408e0 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -52,6 +52,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
                 The number of components in each feature. An integer indicates that this
                 value is the same for all features.
         """
+        self._logger = logging.getLogger(self.__class__.__name__)
         self.num_feat = num_feat
 
         num_comp_per_feat = convert_and_broadcast(num_comp_per_feat, (num_feat,))
@@ -92,7 +93,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
     @chis_feat.setter
     def chis_feat(self, chis_feat_new: np.ndarray):
         chis_feat_new = convert_and_broadcast(
-            chis_feat_new, (self._num_feat, self._num_feat)
+            chis_feat_new, (self.num_feat, self.num_feat)
         )
         # ensure that the chi matrix is symmetric
         if not np.allclose(chis_feat_new, chis_feat_new.T):
-- 
2.43.0


From 254ef6bcc4045c711c604df423dfa78c898625ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 03/14] fix: take the absolute value for the max absolute
 conjugate field error

---
 flory/mcmp/_finder_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index ee116e5..25eb842 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -400,7 +400,9 @@ def multicomponent_self_consistent_metastep(
         for itr_comp in range(num_feat):
             omega_temp[itr_comp] -= omegas[itr_comp]
             omega_temp[itr_comp] *= masks
-            max_abs_omega_diff = max(max_abs_omega_diff, omega_temp[itr_comp].max())
+            max_abs_omega_diff = max(
+                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()
+            )
             omegas[itr_comp] += (
                 additional_factor * acceptance_omega * omega_temp[itr_comp]
             )
-- 
2.43.0


From af6deec0c1eb2d9df8ac0271b1e3378d91357507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 04/14] fix: keep a floating point chi matrix after
 set_uniform_chis with an integer

---
 flory/interaction/flory_huggins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 96a3a25..30ad4ca 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -310,7 +310,7 @@ class FloryHugginsInteraction(FloryHugginsInteractionBase):
                 Whether the diagonal elements of the :math:`\chi_{ij}` matrix are set to
                 be zero.
         """
-        self._chis = np.full((self.num_comp, self.num_comp), chi)
+        self._chis = np.full((self.num_comp, self.num_comp), chi, dtype=float)
         if vanishing_diagonal:
             self._chis[np.diag_indices_from(self._chis)] = 0
 
-- 
2.43.0


From 09a320c94971bcd918af78388a90f6baff101642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 05/14] fix: pass a contiguous float copy of phi_means to the
 compiled ensemble

A scalar phi_means was broadcast with stride zero and read out of bounds by
the compiled class, an integer one failed to compile.
---
 flory/ensemble/canonical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/ensemble/canonical.py b/flory/ensemble/canonical.py
index 6b18e41..97debf5 100644
--- a/flory/ensemble/canonical.py
+++ b/flory/ensemble/canonical.py
@@ -114,4 +114,6 @@ class CanonicalEnsemble(EnsembleBase):
         Returns:
             : Instance of :class:`CanonicalEnsembleCompiled`.
         """
-        return CanonicalEnsembleCompiled(self._phi_means)
+        return CanonicalEnsembleCompiled(
+            np.array(self._phi_means, dtype=np.float64, order="C")
+        )
-- 
2.43.0


From 70458d933b679f271e17263ac5aeba92f1a6a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 06/14] fix: compiled instances own contiguous float copies of
 their parameters

The finder shared memory with the scaled activities, constraint matrices and
block chi matrix, and Fortran-ordered or integer parameters failed to compile.
---
 flory/constraint/linear_global.py        | 5 ++++-
 flory/constraint/linear_local.py         | 5 ++++-
 flory/ensemble/grandcanonical.py         | 4 +++-
 flory/interaction/flory_huggins_block.py | 3 ++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/flory/constraint/linear_global.py b/flory/constraint/linear_global.py
index 5aa96ec..d4cb02a 100644
--- a/flory/constraint/linear_global.py
+++ b/flory/constraint/linear_global.py
@@ -217,5 +217,8 @@ class LinearGlobalConstraint(ConstraintBase):
             : Instance of :class:`LinearGlobalConstraintCompiled`.
         """
         return LinearGlobalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, dtype=np.float64, order="C"),
+            np.array(self._Ts, dtype=np.float64, order="C"),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/constraint/linear_local.py b/flory/constraint/linear_local.py
index 0bcd33d..2da5452 100644
--- a/flory/constraint/linear_local.py
+++ b/flory/constraint/linear_local.py
@@ -210,5 +210,8 @@ class LinearLocalConstraint(ConstraintBase):
             : Instance of :class:`LinearLocalConstraintCompiled`.
         """
         return LinearLocalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, dtype=np.float64, order="C"),
+            np.array(self._Ts, dtype=np.float64, order="C"),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/ensemble/grandcanonical.py b/flory/ensemble/grandcanonical.py
index 6d9d62a..d01f566 100644
--- a/flory/ensemble/grandcanonical.py
+++ b/flory/ensemble/grandcanonical.py
@@ -139,4 +139,6 @@ class GrandCanonicalEnsemble(EnsembleBase):
             : Instance of :class:`GrandCanonicalEnsembleCompiled`.
         """
 
-        return GrandCanonicalEnsembleCompiled(self._scaled_activity)
+        return GrandCanonicalEnsembleCompiled(
+            np.array(self._scaled_activity, dtype=np.float64, order="C")
+        )
diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index af408e0..a8a3496 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -125,5 +125,6 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis_feat, -self._chis_feat.min() + additional_chis_shift
+            np.array(self._chis_feat, dtype=np.float64, order="C"),
+            -self._chis_feat.min() + additional_chis_shift,
         )
-- 
2.43.0


From 22554a9827bfca4c8494b8fbc732fc5ecff43ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:39 +0000
Subject: [PATCH 07/14] fix: convert fields passed to the finder to floating
 point arrays

---
 flory/mcmp/finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 94cd7be..6a239e9 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -298,7 +298,7 @@ class CoexistingPhasesFinder:
         Returns:
             : The field converted to numpy array.
         """
-        field = np.array(field)
+        field = np.array(field, dtype=float, order="C")
         if field.shape != self._omegas.shape:
             self._logger.error(
                 "field with size of %s is invalid. It must have the size of %s.",
-- 
2.43.0


From e516719fbc24deb93549acdd21c85563d4e7ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 08/14] fix: split the largest compartment when none is large
 enough to revive by copy

---
 flory/mcmp/_finder_impl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 25eb842..8471f7f 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -187,6 +187,15 @@ def revive_compartments_by_copy(
 
     for itr_dead in dead_indexes[:dead_count]:
         while True:
+            if living_nicely_count == 0:
+                # no compartment is large enough, so split the largest one
+                ref_index = np.argmax(Js)
+                targets[:, itr_dead] = targets[:, ref_index]
+                new_J = 0.5 * Js[ref_index]
+                Js[itr_dead] = new_J
+                Js[ref_index] = new_J
+                revive_count += 1
+                break
             pos_in_living = rng.integers(0, living_nicely_count)
             ref_index = living_nicely_indexes[pos_in_living]
             if Js[int(ref_index)] > 2.0 * threshold:
-- 
2.43.0


From 09f3524b8a24d088d190df0e50c47f88d3efc534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 09/14] fix: keep the old instances of the finder when a
 replacement is rejected

---
 flory/mcmp/finder.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 6a239e9..71e164f 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -324,10 +324,9 @@ class CoexistingPhasesFinder:
             kwargs:
                 The keyword arguments to update the default.
         """
-        self._interaction = interaction.compiled(
-            **{**self._kwargs_for_instances, **kwargs}
-        )
-        self.check_instance(self._interaction)
+        compiled = interaction.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._interaction = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -348,8 +347,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._entropy)
+        compiled = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._entropy = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -370,8 +370,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._ensemble)
+        compiled = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(compiled)
+        self._ensemble = compiled
         if if_reset_revive:
             self.reset_revive()
 
@@ -400,12 +401,12 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._constraints = []
+        compiled_constraints = []
         if constraints:
             if isinstance(constraints, ConstraintBase):
                 if kwargs_individual is None:
                     kwargs_individual = {}
-                self._constraints.append(
+                compiled_constraints.append(
                     constraints.compiled(
                         **{**self._kwargs_for_instances, **kwargs, **kwargs_individual}
                     )
@@ -414,16 +415,17 @@ class CoexistingPhasesFinder:
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
                 for cons, current_args in zip(constraints, kwargs_individual):
-                    self._constraints.append(
+                    compiled_constraints.append(
                         cons.compiled(
                             **{**self._kwargs_for_instances, **kwargs, **current_args}
                         )
                     )
         else:
-            self._constraints.append(NoConstraintCompiled(self._num_feat))
+            compiled_constraints.append(NoConstraintCompiled(self._num_feat))
 
-        for cons in self._constraints:
+        for cons in compiled_constraints:
             self.check_instance(cons)
+        self._constraints = compiled_constraints
 
         self.reinitialize_constraint()
 
-- 
2.43.0


From ed88f8140eadb9d4a232e6a4e416cfaa64ee79e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 10/14] fix: sort the phases returned by get_clusters as
 documented

---
 flory/common/phases.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/common/phases.py b/flory/common/phases.py
index a032adc..78a54b1 100644
--- a/flory/common/phases.py
+++ b/flory/common/phases.py
@@ -141,7 +141,9 @@ class Phases:
             cluster_fractions.append(mean_fractions)
             cluster_volumes.append(current_volumes.sum())
 
-        return self._copy(cluster_volumes, cluster_fractions)
+        return self._copy(
+            np.array(cluster_volumes), np.array(cluster_fractions)
+        ).sort()
 
 
 class PhasesResult(Phases):
-- 
2.43.0


From 801017f6d42fd77157864601c7a627b45ab2897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:22 +0000
Subject: [PATCH 11/14] fix: do not count features without components in the
 polydispersed entropy

---
 flory/entropy/ideal_gas_polydispersed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flory/entropy/ideal_gas_polydispersed.py b/flory/entropy/ideal_gas_polydispersed.py
index a7e3674..e26caf1 100644
--- a/flory/entropy/ideal_gas_polydispersed.py
+++ b/flory/entropy/ideal_gas_polydispersed.py
@@ -84,9 +84,8 @@ class IdealGasPolydispersedEntropyCompiled(EntropyBaseCompiled):
     def comp_to_feat(self, phis_feat: np.ndarray, phis_comp: np.ndarray) -> None:
         itr_comp = 0
         for itr_feat in range(self._num_feat):
-            phis_feat[itr_feat] = phis_comp[itr_comp]
-            itr_comp += 1
-            for _ in range(1, self._num_comp_per_feat[itr_feat]):
+            phis_feat[itr_feat] = 0.0
+            for _ in range(self._num_comp_per_feat[itr_feat]):
                 phis_feat[itr_feat] += phis_comp[itr_comp]
                 itr_comp += 1
 
-- 
2.43.0


From ae19bbdceb7a597eea5e900d4eeecfd4d68574fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:51 +0000
Subject: [PATCH 12/14] fix: never split a dead compartment when reviving by
 copy

---
 flory/mcmp/_finder_impl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 8471f7f..6d30060 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -184,6 +184,7 @@ def revive_compartments_by_copy(
         elif Js[itr_compartment] <= threshold:
             dead_indexes[dead_count] = itr_compartment
             dead_count += 1
+            Js[itr_compartment] = 0.0  # a dead compartment must not be split
 
     for itr_dead in dead_indexes[:dead_count]:
         while True:
-- 
2.43.0


From f8d969514c14cc0f496d1aad9c26fb603937d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:01 +0000
Subject: [PATCH 13/14] fix: reject kwargs_individual that do not match the
 constraints

zip silently dropped the surplus constraints.
---
 flory/mcmp/finder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 71e164f..dfae700 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -414,6 +414,8 @@ class CoexistingPhasesFinder:
             elif isinstance(constraints, Iterable):
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
+                if len(kwargs_individual) != len(constraints):
+                    raise ValueError("kwargs_individual must match the constraints.")
                 for cons, current_args in zip(constraints, kwargs_individual):
                     compiled_constraints.append(
                         cons.compiled(
-- 
2.43.0


From 068498141b97ac7554a4d1161ec5814ad75f0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:27 +0000
Subject: [PATCH 14/14] fix: compute the shift of the block interaction in
 double precision

The shift of single precision matrices was rounded to single precision, in
contrast to FloryHugginsInteraction.
---
 flory/interaction/flory_huggins_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index a8a3496..3316ad9 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -126,5 +126,5 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
 
         return FloryHugginsInteractionCompiled(
             np.array(self._chis_feat, dtype=np.float64, order="C"),
-            -self._chis_feat.min() + additional_chis_shift,
+            -self._chis_feat.astype(np.float64).min() + additional_chis_shift,
         )
-- 
2.43.0

