From a4c90da381111ecfc26c923454fcbe920982eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 01/12] fix: keep the previous residual vector when a step is
 rejected

Levenberg-Marquardt and dogleg kept the residual of the rejected proposal, so
the next linearization and step quality were computed from a residual that did
not belong to the current assignments. A single non-finite proposal made every
later step non-finite.
---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..f5e28dd 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -183,6 +183,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),  # Should always match the cost + assignments
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..5832f67 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -147,6 +147,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),  # Should always match the cost + assignments
             done=done,
         )
-- 
2.43.0


From b898b56f82d71f8cd673be1eaf0bd5627f6c01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 02/12] fix: use the infinity norm in the gradient tolerance
 check

The check compared the signed maximum, so solves terminated early whenever
every parameter was moving in the positive direction.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From f1632694747539ea79822c36c9393369694e7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 03/12] fix: handle shuffled storage layouts in the fixed
 iteration solver

Initial assignments whose variable order differs from the graph's order were
retracted with the wrong deltas, which silently produced wrong solutions.
---
 .../solvers/_fixed_iteration_gauss_newton_solver.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
index 88903e1..5634c7a 100644
--- a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
+++ b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
@@ -97,10 +97,10 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
     ) -> VariableAssignments:
         """Run MAP inference on a factor graph."""
 
-        # Initialize
-        assignments = initial_assignments
-        cost, residual_vector = graph.compute_cost(assignments)
-        state = self._initialize_state(graph, initial_assignments)
+        # Initialize. Note that the storage layout of the initial assignments may not
+        # match what the graph expects.
+        assignments = initial_assignments.update_storage_layout(graph.storage_layout)
+        state = self._initialize_state(graph, assignments)
 
         # Optimization
         if self.unroll:
@@ -119,4 +119,7 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
             cost=state.cost,
         )
 
-        return state.assignments
+        # Return, but with the storage layout reverted.
+        return state.assignments.update_storage_layout(
+            initial_assignments.storage_layout
+        )
-- 
2.43.0


From 9afbcf34d0f719a438f8e2fab3883dbc3207a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 04/12] fix: do not factorize the shared CHOLMOD analysis
 in-place

Threads solving with the same solver overwrote each other's factorization
between the factorize and solve calls, and got each other's steps.
---
 jaxfg/sparse/_linear_solve.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index fd7f68d..58d87e2 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -79,13 +79,15 @@ class CholmodSolver(LinearSubproblemSolverBase):
         if self_hash not in _cholmod_analyze_cache:
             _cholmod_analyze_cache[self_hash] = sksparse.cholmod.analyze_AAt(A_T_scipy)
 
-        # Factorize and solve
-        _cholmod_analyze_cache[self_hash].cholesky_AAt_inplace(
+        # Factorize and solve. The cached analysis is shared, so we factorize a copy of
+        # it instead of working in-place: otherwise, concurrent solves can overwrite each
+        # other's factorizations.
+        factor = _cholmod_analyze_cache[self_hash].cholesky_AAt(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
         )
-        return _cholmod_analyze_cache[self_hash].solve_A(args.ATb)
+        return factor.solve_A(args.ATb)
 
 
 class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
-- 
2.43.0


From a27f80ddac55e8fbe4c3fe50727dd09b800b4e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 05/12] fix: key the CHOLMOD analysis cache by sparsity pattern

The cache was keyed by solver identity. Reusing a solver for a graph with a
different sparsity pattern raised an error or factorized with the wrong
analysis, and so did a new solver allocated at the address of a dead one.
---
 jaxfg/sparse/_linear_solve.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index 58d87e2..b97a73d 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -42,8 +42,7 @@ class CholmodSolver(LinearSubproblemSolverBase):
     reasons, but also less stable than `ConjugateGradientSolver`.
 
     Runs via an XLA host callback, and has some usage caveats:
-    - Caching is a little bit sketchy. Assumes that a given solver is not reused for
-      systems with different sparsity patterns.
+    - Symbolic analysis results are cached for every sparsity pattern that we encounter.
     - Does not support function transforms (`vmap`, `pmap`, etc), due to current
       limitations of `hcb.call()`.
     - Does not support autodiff. A custom JVP or VJP definition should be easy to
@@ -75,14 +74,18 @@ class CholmodSolver(LinearSubproblemSolverBase):
         A_T_scipy = A_T.as_scipy_coo_matrix().tocsc(copy=False)
 
         # Cache sparsity pattern analysis
-        self_hash = object.__hash__(self)
-        if self_hash not in _cholmod_analyze_cache:
-            _cholmod_analyze_cache[self_hash] = sksparse.cholmod.analyze_AAt(A_T_scipy)
+        cache_key = (
+            A_T_scipy.shape,
+            A_T_scipy.indptr.tobytes(),
+            A_T_scipy.indices.tobytes(),
+        )
+        if cache_key not in _cholmod_analyze_cache:
+            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)
 
         # Factorize and solve. The cached analysis is shared, so we factorize a copy of
         # it instead of working in-place: otherwise, concurrent solves can overwrite each
         # other's factorizations.
-        factor = _cholmod_analyze_cache[self_hash].cholesky_AAt(
+        factor = _cholmod_analyze_cache[cache_key].cholesky_AAt(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
-- 
2.43.0


From 6eb7742432dabf7ea13a9aa323f9a3e6aa14a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:53 +0000
Subject: [PATCH 06/12] fix: return one variable type and canonical instance to
 racing threads

`functools.lru_cache` may call the wrapped function more than once for the same
key, so threads that raced on the first lookup got different
`RealVectorVariable[N]` classes or canonical instances. Factors on those
variables were then never stacked together.
---
 jaxfg/core/_variables.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/jaxfg/core/_variables.py b/jaxfg/core/_variables.py
index 5857911..f8fbf8d 100644
--- a/jaxfg/core/_variables.py
+++ b/jaxfg/core/_variables.py
@@ -1,7 +1,6 @@
 import abc
-import functools
 import inspect
-from typing import Callable, ClassVar, Generic, Mapping, Tuple, Type, TypeVar
+from typing import Callable, ClassVar, Dict, Generic, Mapping, Tuple, Type, TypeVar
 
 import jax
 import numpy as onp
@@ -131,23 +130,32 @@ class VariableBase(abc.ABC, Generic[VariableValueType], EnforceOverrides):
         return cls._unflatten(flat)
 
     @classmethod
-    @functools.lru_cache(maxsize=None)
     def canonical_instance(cls: Type[VariableType]) -> VariableType:
         """Returns the 'canonical instance' of a variable. For a given class, this will
         be the same instance each time the method is called. Used for factor stacking.
         """
-        return cls()
+        if cls not in _canonical_instances:
+            # `setdefault()` is atomic: if threads race, they agree on one instance.
+            _canonical_instances.setdefault(cls, cls())
+        return _canonical_instances[cls]  # type: ignore
+
+
+_canonical_instances: Dict[Type[VariableBase], VariableBase] = {}
 
 
 # Fake templating; RealVectorVariable[N]
 class _RealVectorVariableTemplate:
     """Usage: `RealVectorVariable[N]`, where `N` is an integer dimension."""
 
-    @classmethod
-    @functools.lru_cache(maxsize=None)
-    def __getitem__(cls, dim: int) -> Type[VariableBase]:
+    def __getitem__(self, dim: int) -> Type[VariableBase]:
         assert isinstance(dim, int)
+        if dim not in _real_vector_variable_types:
+            # `setdefault()` is atomic: if threads race, they agree on one type.
+            _real_vector_variable_types.setdefault(dim, self._make(dim))
+        return _real_vector_variable_types[dim]
 
+    @staticmethod
+    def _make(dim: int) -> Type[VariableBase]:
         class _RealVectorVariable(VariableBase[hints.Array]):
             @classmethod
             @overrides
@@ -158,5 +166,7 @@ class _RealVectorVariableTemplate:
         return _RealVectorVariable
 
 
+_real_vector_variable_types: Dict[int, Type[VariableBase]] = {}
+
 RealVectorVariable: Mapping[int, Type[VariableBase[hints.Array]]]
 RealVectorVariable = _RealVectorVariableTemplate()  # type: ignore
-- 
2.43.0


From 117597b321a62ce0ff108454bc8c12c7d741db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:53 +0000
Subject: [PATCH 07/12] fix: disable variable reordering when recovering
 covariances

CHOLMOD's default ordering permutes the variables when that reduces fill-in, but
the square-root information matrix is indexed in the graph's order. Marginals
were returned for the wrong variables.
---
 jaxfg/experimental/_sparse_covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..83ec453 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -38,8 +38,11 @@ class SparseCovariance:
             .T.as_scipy_coo_matrix()
             .tocsc(copy=False)
         )
+
+        # Note that we index into our square-root information matrix using the storage
+        # layout of the graph, so the variables can't be permuted.
         sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
+            sksparse.cholmod.cholesky_AAt(A=A, ordering_method="natural").L()
         )
         return SparseCovariance(
             L=sqrt_information_matrix,
-- 
2.43.0


From 9fa519116f9198c15973356fd27f57d6e0956084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:53 +0000
Subject: [PATCH 08/12] fix: weight Huber Jacobians and residuals consistently

The Jacobian weight was computed from the already weighted residual, so outlier
Jacobians were scaled by the square root of the residual's weight and solves
converged to a point that does not minimize the Huber loss.
---
 jaxfg/noises/_huber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..234e5ec 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -43,9 +43,12 @@ class HuberWrapper(NoiseModelBase):
     ) -> hints.Array:
         jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)
 
+        # Note that `residual_vector` has already been through
+        # `whiten_residual_vector()`. Past the threshold, its norm is the square root of
+        # `delta * norm`, where `norm` is the residual norm before Huber weighting.
         residual_norm = jnp.linalg.norm(residual_vector)
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            jacobian * (self.delta / residual_norm),
         )
-- 
2.43.0


From 5f81ee622ea0ec207073a4d287e3c9fad6c8ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:53 +0000
Subject: [PATCH 09/12] fix: sum duplicate coordinates when converting to a
 dense matrix

Matrix-vector products and the scipy conversion sum duplicates. The dense
conversion kept only one of them.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From b0c758b9191da60eae9bfaa1771626322044c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:53 +0000
Subject: [PATCH 10/12] fix: reject steps that increase both the linearized and
 the actual cost

The step quality is a ratio of cost changes. When a bad linear solve produced a
step that increased both, the ratio was positive and the step was accepted, so
trust region solvers could return an estimate that is worse than the initial
one.
---
 jaxfg/solvers/_mixins.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index cea6b37..15e685d 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -22,10 +22,18 @@ class _TrustRegionMixin:
     ) -> hints.Scalar:
         """Compute step quality ratio, often denoted $$\rho$$.
         This will be 1 when the cost drops linearly wrt the update step."""
-        return (proposed_cost - state_prev.cost) / (
+        cost_change = proposed_cost - state_prev.cost
+        cost_change_linear = (
             jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)
             - state_prev.cost
         )
+        return jnp.where(
+            # Linear solver failures can result in steps that are expected to increase
+            # the cost: an actual increase shouldn't make these look like good steps.
+            jnp.logical_and(cost_change > 0.0, cost_change_linear > 0.0),
+            -jnp.inf,
+            cost_change / cost_change_linear,
+        )
 
 
 @jdc.pytree_dataclass
-- 
2.43.0


From 35b97e6a7e2909a9a582bc7cb924d4b1996805a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:50 +0000
Subject: [PATCH 11/12] fix: measure durations with a clock that cannot be
 adjusted

The stopwatch subtracted wall clock readings, so setting the system clock while a
block runs gave durations that are wrong or negative.
---
 jaxfg/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxfg/utils.py b/jaxfg/utils.py
index 0e544e7..7f68405 100644
--- a/jaxfg/utils.py
+++ b/jaxfg/utils.py
@@ -25,9 +25,11 @@ def pytree_concatenate(*trees: T, axis=0) -> T:
 @contextlib.contextmanager
 def stopwatch(label: str = "unlabeled block") -> Generator[None, None, None]:
     """Context manager for measuring runtime."""
-    start_time = time.time()
+    # The wall clock can be adjusted while a block runs, so we use a monotonic one.
+    start_time = time.perf_counter()
     print("\n========")
     print(f"Running ({label})")
     yield
-    print(f"{termcolor.colored(str(time.time() - start_time), attrs=['bold'])} seconds")
+    duration = time.perf_counter() - start_time
+    print(f"{termcolor.colored(str(duration), attrs=['bold'])} seconds")
     print("========")
-- 
2.43.0


From ca0379c13699706c0d111cb107d9e61734f12a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:42 +0000
Subject: [PATCH 12/12] fix: match deltas by variable when retracting
 assignments

Deltas were matched with values by their position, so a delta whose variables are
stored in another order moved the wrong variables.
---
 jaxfg/core/_variable_assignments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 892c7ef..eff1204 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -186,6 +186,12 @@ class VariableAssignments:
         assert not self.storage_layout.local_flag
         assert local_delta_assignments.storage_layout.local_flag
 
+        # Resolve storage layout mismatches. Values and deltas are matched by position
+        # below, so they need to be stored in the same order.
+        local_delta_assignments = local_delta_assignments.update_storage_layout(
+            StorageLayout.make(self.get_variables(), local=True)
+        )
+
         # On-manifold retractions, one variable type at a time!
         new_storage = jnp.zeros_like(self.storage)
         variable_type: Type[VariableBase]
-- 
2.43.0

