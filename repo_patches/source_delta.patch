From 2a6bbbe6c28187817e7f4a8f15b4993aca8868c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 01/34] fix: take the initial time into account when reusing
 checkpoints

Reverse mode reused the checkpoints of the last compute() when only
time_initial had changed, yielding the derivative at the old initial time.
---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..7cafc62 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -828,6 +828,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From 2ee3fd66910113ce2354612af4107aaffd17bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 02/34] fix: do not reuse checkpoints of failed forward or
 reverse iterations

If a stage, solver or callback raised during compute() or during the reverse
iteration, the incomplete or partially consumed checkpoints were still seen as
valid, so that the next reverse mode call silently returned wrong derivatives.
---
 src/rkopenmdao/runge_kutta_integrator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7cafc62..051aefe 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -438,11 +438,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
+        # Checkpoints are only usable once the whole forward iteration went through.
+        self._cached_input = None
         self._compute_preparation_phase(inputs, self._time_integration_state)
+        checkpointed_input = deepcopy(self._time_integration_state.discretization_state)
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = checkpointed_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -462,8 +466,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
-
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
 
@@ -772,6 +774,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general, even if the
+        # reverse iteration fails halfway
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -788,9 +793,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
-- 
2.43.0


From a0423111444f1649d02e10de95aa1815e0311b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 03/34] fix: forget checkpoints of earlier setups on setup()

A reverse mode call right after a repeated setup() used the new, still empty
checkpointer and returned the derivative of the identity (or failed).
---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 051aefe..4adc971 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -249,6 +249,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def setup(self):
         if self.comm.rank == 0:
             print("\n" + "=" * 33 + " setup starts " + "=" * 33 + "\n")
+        # Checkpoints of an earlier setup don't belong to the new checkpointer.
+        self._cached_input = None
+        self._of_vars = []
+        self._wrt_vars = []
         self._integration_config = self.options["integration_config"]
         if hasattr(self._integration_config.termination_criterion, "remaining_time"):
             self._remaining_time_func = (
-- 
2.43.0


From d945a67fc98f4599b8f859d0ecd6240e7f0af0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 04/34] fix: keep forward mode from overwriting the state used
 by checkpoints

The Pyrevolve checkpointer starts its reverse iteration from the last primal
state. A forward mode product between compute() and reverse mode replaced that
state, so reverse mode was linearized around the wrong point.
---
 src/rkopenmdao/runge_kutta_integrator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 4adc971..06bd3fd 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -666,15 +666,18 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The checkpointer works on self._time_integration_state, so forward mode needs
+        # its own state to not invalidate existing checkpoints.
+        integration_state = deepcopy(self._time_integration_state)
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
-            self._time_integration_state,
+            integration_state,
             self._time_integration_state_perturbations,
         )
         self._time_integration_state_perturbations.set(
             self._compute_jacvec_fwd_run_steps(
-                self._time_integration_state, self._time_integration_state_perturbations
+                integration_state, self._time_integration_state_perturbations
             )
         )
         self._from_numpy_array_time_integration(
-- 
2.43.0


From 41415881880f1907264de615c579cf8d9745e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:46 +0000
Subject: [PATCH 05/34] fix: accumulate into derivative vectors in
 compute_jacvec_product

OpenMDAO hands vectors with existing contents to compute_jacvec_product and
expects contributions to be added. Overwriting them lost the contribution of the
outputs themselves, so forward mode derivatives in groups using e.g. ScipyKrylov
or DirectSolver were wrong or raised errors.
---
 src/rkopenmdao/runge_kutta_integrator.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 06bd3fd..9ec9c1a 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -505,7 +505,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 np_array[start:end] = om_vector[quantity.name].flatten()
 
     def _from_numpy_array_time_integration(
-        self, np_array: np.ndarray, om_vector: OMVector
+        self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
     ):
         if om_vector._kind == "input":
             name_suffix = "_initial"
@@ -516,9 +516,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            om_vector[quantity.name + name_suffix] = np_array[start:end].reshape(
-                quantity.array_metadata.shape
-            )
+            values = np_array[start:end].reshape(quantity.array_metadata.shape)
+            if accumulate:
+                om_vector[quantity.name + name_suffix] += values
+            else:
+                om_vector[quantity.name + name_suffix] = values
 
     def _from_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -533,7 +535,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] = np_array[start:end].reshape(
+                om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
                 )
 
@@ -683,6 +685,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
+            accumulate=True,
         )
         d_outputs[
             "time_final"
@@ -791,6 +794,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
             d_inputs,
+            accumulate=True,
         )
         self._from_numpy_array_independent_input(
             integration_state_perturbations.discretization_state.independent_inputs,
-- 
2.43.0


From 142a11dd00e16f4d241350b00b862d8eb7c2ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 06/34] fix: ignore variables out of scope in
 compute_jacvec_product

---
 src/rkopenmdao/runge_kutta_integrator.py | 31 ++++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 9ec9c1a..af34af4 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -485,7 +485,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            if quantity.name + name_suffix in om_vector:
+                np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            else:
+                # Variable is out of scope for the current matrix-vector product.
+                np_array[start:end] = 0.0
 
     def _to_numpy_array_independent_inputs(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -502,7 +506,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                np_array[start:end] = om_vector[quantity.name].flatten()
+                if quantity.name in om_vector:
+                    np_array[start:end] = om_vector[quantity.name].flatten()
+                else:
+                    # Variable is out of scope for the current matrix-vector product.
+                    np_array[start:end] = 0.0
 
     def _from_numpy_array_time_integration(
         self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
@@ -514,6 +522,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         for (
             quantity
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
+            if quantity.name + name_suffix not in om_vector:
+                # Variable is out of scope for the current matrix-vector product.
+                continue
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
             values = np_array[start:end].reshape(quantity.array_metadata.shape)
@@ -533,6 +544,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ) in (
                 self._ode.time_integration_metadata.time_independent_input_quantity_list
             ):
+                if quantity.name not in om_vector:
+                    # Variable is out of scope for the current matrix-vector product.
+                    continue
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
                 om_vector[quantity.name] += np_array[start:end].reshape(
@@ -718,9 +732,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
-            "time_initial"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_inputs["time_initial"][0] if "time_initial" in d_inputs else 0.0
+        )
         self._reset_error_control(integration_state)
 
     def _compute_jacvec_fwd_run_steps(
@@ -800,9 +814,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-        d_inputs[
-            "time_initial"
-        ] += integration_state_perturbations.discretization_state.final_time[0]
+        if "time_initial" in d_inputs:
+            d_inputs[
+                "time_initial"
+            ] += integration_state_perturbations.discretization_state.final_time[0]
 
         if self.comm.rank == 0:
             print(
-- 
2.43.0


From 0ad86a1028f9d18c90883a64e6915a09e24152df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 07/34] fix: keep the revolver options of the user unmodified

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..608bf23 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -61,6 +61,9 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def __post_init__(self):
         """Sets up all permanent data derived from initialization arguments."""
+        # The options are extended with data of this checkpointer, so don't modify the
+        # dict of the user, which could be shared with other checkpointers.
+        self.revolver_options = dict(self.revolver_options)
         self._first_complete_state = deepcopy(self.state)
         checkpoint = RungeKuttaCheckpoint(self.state)
 
-- 
2.43.0


From 746ee56b69363080aa522cd48b7e5e8d7860f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 08/34] fix: number steps of the pyrevolve forward operator
 starting from one

---
 .../runge_kutta_integrator_pyrevolve_classes.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..7cb270e 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,7 +178,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             # TODO?: Add iteration to fwd_op
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
-- 
2.43.0


From 846659d519b178ce336021ff2346ce33e12fdafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:04 +0000
Subject: [PATCH 09/34] fix: support one and two time steps in the pyrevolve
 checkpointer

---
 .../pyrevolve_checkpointer.py                 | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 608bf23..c176f67 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -95,7 +95,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
         if "n_checkpoints" not in self.revolver_options:
             if self.revolver_type not in ["MultiLevel", "Base"]:
-                self.revolver_options["n_checkpoints"] = 1 if num_steps == 1 else None
+                # pyRevolve can't determine a checkpoint number for a single time step.
+                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
 
         self.revolver_options["fwd_operator"] = RungeKuttaForwardOperator(
             self.state,
@@ -110,7 +111,10 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def create_checkpointer(self):
         """Creates the actual revolver object used for checkpointing by Pyrevolve."""
-        self._revolver = self._revolver_class_type(**self.revolver_options)
+        # The first step is not handled by the revolver, and pyRevolve can't handle the
+        # case of no remaining steps.
+        if self.revolver_options["n_timesteps"] > 0:
+            self._revolver = self._revolver_class_type(**self.revolver_options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
@@ -163,14 +167,14 @@ class PyrevolveCheckpointer(CheckpointInterface):
         final_state: TimeIntegrationState
             The resulting state after completing all time steps.
         """
-        self._revolver.fwd_operator.time_integration_state.set(initial_state)
-        self._revolver.fwd_operator.apply(t_start=-1, t_end=0)
-        self._first_complete_state.set(
-            self._revolver.fwd_operator.time_integration_state
-        )
-        self.state.set(self._revolver.fwd_operator.time_integration_state)
-        self._revolver.apply_forward()
-        return self._revolver.fwd_operator.time_integration_state
+        fwd_operator = self.revolver_options["fwd_operator"]
+        fwd_operator.time_integration_state.set(initial_state)
+        fwd_operator.apply(t_start=-1, t_end=0)
+        self._first_complete_state.set(fwd_operator.time_integration_state)
+        self.state.set(fwd_operator.time_integration_state)
+        if self._revolver is not None:
+            self._revolver.apply_forward()
+        return fwd_operator.time_integration_state
 
     def iterate_reverse(
         self, final_state_perturbation: TimeIntegrationState
@@ -191,9 +195,9 @@ class PyrevolveCheckpointer(CheckpointInterface):
             steps.
         """
         self.state_perturbation.set(final_state_perturbation)
-        self._revolver.apply_reverse()
-        self._revolver.rev_operator.time_integration_state.set(
-            self._first_complete_state
-        )
-        self._revolver.rev_operator.apply(t_start=-1, t_end=0)
-        return self._revolver.rev_operator.time_integration_state_perturbations
+        rev_operator = self.revolver_options["rev_operator"]
+        if self._revolver is not None:
+            self._revolver.apply_reverse()
+        rev_operator.time_integration_state.set(self._first_complete_state)
+        rev_operator.apply(t_start=-1, t_end=0)
+        return rev_operator.time_integration_state_perturbations
-- 
2.43.0


From fe093a902246dc5509ef1847d1af9622bb8c9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:07 +0000
Subject: [PATCH 10/34] fix: accept steps above the tolerance only at the lower
 bound of the step size

Steps leaving a remaining time equal to their size were accepted for any error, and
final steps shorter than the lower bound were retried endlessly.
---
 src/rkopenmdao/error_controller.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..29c261f 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -189,8 +189,7 @@ class ErrorController:
         """
         success = False
         if (
-            np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
+            delta_t - self.config.lower_bound < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 65fcf9ba4f7ae30fe32b4c96b24270bf41251ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:07 +0000
Subject: [PATCH 11/34] fix: raise when a rejected step would be retried with
 the same size

---
 src/rkopenmdao/error_controller.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 29c261f..0603c16 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -148,10 +148,10 @@ class ErrorController:
             step_size_history=step_size_history,
         )
         if not status.acceptance:
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise OuterErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
-                    delta t {delta_t} on failure."""
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller
+                    than delta t {delta_t} on failure."""
                 )
         return status
 
@@ -407,9 +407,9 @@ class ErrorControllerDecorator(ErrorController):
         )
         if not status.acceptance:
             self._is_not_inner = False
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
-                    delta t {delta_t} on failure."""
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller
+                    than delta t {delta_t} on failure."""
                 )
         return status
-- 
2.43.0


From adcc03feee6257d4625162af544897f8b7dcc92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:24 +0000
Subject: [PATCH 12/34] fix: don't carry the fallback state of error
 controllers over to other steps

---
 src/rkopenmdao/error_controller.py       | 8 ++++++++
 src/rkopenmdao/runge_kutta_integrator.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 0603c16..9bb47c9 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -110,6 +110,9 @@ class ErrorController:
         self._name = "Outermost " + name
         self._width = 0
 
+    def start_new_step(self):
+        """Forgets information on retries of previous time steps."""
+
     def __call__(
         self,
         *,
@@ -334,6 +337,11 @@ class ErrorControllerDecorator(ErrorController):
         self._name = "Innermost " + name
         self._outer_counter = 0
 
+    def start_new_step(self):
+        self.error_controller.start_new_step()
+        self._is_not_inner = True
+        self._outer_counter = 0
+
     def __call__(
         self,
         *,
diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index af34af4..b41acdd 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -586,6 +586,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         """Iterates on the a step until a time step that
         complies with the norm's tolerance"""
         if self._integration_config.use_adaptive_time_stepping:
+            if i == 0:
+                # Retries of other (possibly failed) steps must not influence this step
+                self._error_controller.start_new_step()
             if self.comm.rank == 0:
                 print(
                     f"Start Iteration {i}: Trying with "
-- 
2.43.0


From cfaad2df7225a54319f9c8a4d5d764a47b58c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:24 +0000
Subject: [PATCH 13/34] fix: don't step over the final time with the initial
 step size

---
 src/rkopenmdao/runge_kutta_integrator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index b41acdd..a07318e 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -579,6 +579,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state.step_size_suggestion[0] = (
             self._integration_config.initial_step_size
         )
+        if self._integration_config.use_adaptive_time_stepping:
+            # Don't step over the end of the time integration in the first step.
+            remaining_time = self._remaining_time_func(
+                integration_state.discretization_state.final_time[0]
+            )
+            if remaining_time > 0.0:
+                integration_state.step_size_suggestion[0] = min(
+                    remaining_time, integration_state.step_size_suggestion[0]
+                )
 
     def _iterate_on_step(
         self, time_integration_state: TimeIntegrationState, i: int = 0
-- 
2.43.0


From 73943adcbe0171fad389214f19781a8a1dbd500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:54 +0000
Subject: [PATCH 14/34] fix: copy embedded state and error estimate in embedded
 discretization states

---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..5c7c40c 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -216,6 +216,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From 5e4a3496a6d27dfd6a79cb668a42f156fd38280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:54 +0000
Subject: [PATCH 15/34] fix: restore complete and independent states in
 from_dict

---
 .../runge_kutta_discretization_state.py       | 25 +++++++++++--------
 src/rkopenmdao/time_integration_state.py      | 13 +++++++---
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 5c7c40c..1110726 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,25 +134,26 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
         )
-        state.start_state = state_dict["start_state"]
-        state.start_time = state_dict["start_time"]
-        state.stage_times = state_dict["stage_times"]
+        state.start_state[:] = state_dict["start_state"]
+        state.start_time[:] = state_dict["start_time"]
+        state.stage_times[:] = state_dict["stage_times"]
         for i in range(number_of_stages):
             state.stage_states[i, :] = state_dict[f"stage_{i}"]["state"]
             state.stage_updates[i, :] = state_dict[f"stage_{i}"]["update"]
             state.stage_independent_outputs[i, :] = state_dict[f"stage_{i}"][
                 "independent_output"
             ]
-        state.final_state = state_dict["final_state"]
-        state.independent_inputs = state_dict["independent_input"]
-        state.final_independent_outputs = state_dict["final_independent_output"]
-        state.final_time = state_dict["final_time"]
-        state.linearization_points = state_dict["linearization_points"]
+        state.final_state[:] = state_dict["final_state"]
+        state.independent_inputs[:] = state_dict["independent_input"]
+        state.final_independent_outputs[:] = state_dict["final_independent_output"]
+        state.final_time[:] = state_dict["final_time"]
+        state.step_size[:] = state_dict["step_size"]
+        state.linearization_points[:] = state_dict["linearization_points"]
         return state
 
 
@@ -230,5 +232,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
-        state.error_estimate = state_dict["error_estimate"]
+        state.embedded_state[:] = state_dict["embedded_state"]
+        state.error_estimate[:] = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..3aa7a71 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        if "embedded_state" in time_state_dict["discretization_state"]:
+            discretization_state_class = EmbeddedRungeKuttaDiscretizationState
+        else:
+            discretization_state_class = RungeKuttaDiscretizationState
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
+            discretization_state_class.from_dict(
                 time_state_dict["discretization_state"]
             ),
-            time_state_dict["step_size_suggestion"][0],
-            time_state_dict["step_size_history"],
-            time_state_dict["error_history"],
+            time_state_dict["step_size_suggestion"].copy(),
+            time_state_dict["step_size_history"].copy(),
+            time_state_dict["error_history"].copy(),
         )
-- 
2.43.0


From c079db8581261ec665bfe33daff51d34528a0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:54 +0000
Subject: [PATCH 16/34] fix: start linear solves of the ODE from zero, even
 after invalid values

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..7236ae8 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,8 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        d_residuals.asarray()[:] = 0.0
+        d_outputs.asarray()[:] = 0.0
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +197,8 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        d_outputs.asarray()[:] = 0.0
+        d_residuals.asarray()[:] = 0.0
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From 33682f7d182d183e736cc39afef84288e6ada4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:00 +0000
Subject: [PATCH 17/34] fix: only keep completely computed and written steps in
 HDF5 files

---
 src/rkopenmdao/file_writer.py | 56 +++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..fb9b344 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -53,24 +53,37 @@ class OpenMDAOHDF5Callback(Callback):
         discretization_scheme: TimeDiscretizationSchemeInterface,
     ) -> None:
         """
-        Creates datasets for data of the to be computed in the current step, if
-        necessary wrt. to self.write_out_period. In the first iteration, also creates
-        datasets for the initial values.
+        Creates an empty file in the first iteration. The datasets of a step are only
+        created once it is computed, such that the file only contains completed steps.
 
         Parameters
         ----------
         iteration: int
             The current iteration of the time integration.
         time_integration_state: TimeIntegrationState
-            Current state of the time integration. Only used currently to differentiate
-            between time integrations with and without error control.
+            Currently unused.
         ode: OpenMDAOODE
-            OpenMDAO ODE implementation that represents a multidisciplinary problem.
+            Currently unused.
         discretization_scheme: TimeDiscretizationSchemeInterface
             Currently unused. Probably will be necessary to be used once the use of
             arbitrary time discretizations is fully supported by the time integration.
         """
-        mode = "w" if iteration == 1 else "r+"
+        if iteration == 1:
+            with h5py.File(self.filename, mode="w", driver="mpio", comm=self.comm):
+                pass
+
+    def _create_datasets(
+        self,
+        iteration: int,
+        time_integration_state: TimeIntegrationState,
+        ode: OpenMDAOODE,
+        new_groups: list[str],
+    ) -> None:
+        """
+        Creates datasets for data of the current step, if necessary wrt. to
+        self.write_out_period. In the first iteration, also creates datasets for the
+        initial values. Appends the name of each created group to `new_groups`.
+        """
         iter_strs = []
         # In the first iteration, also add dataset for the initial values.
         if iteration == 1:
@@ -78,8 +91,12 @@ class OpenMDAOHDF5Callback(Callback):
         # Create datasets if write out is requested via self.write_out_period.
         if iteration % self.write_out_period == 0:
             iter_strs.append(f"{iteration}")
-        with h5py.File(self.filename, mode=mode, driver="mpio", comm=self.comm) as hf:
+        with h5py.File(self.filename, mode="r+", driver="mpio", comm=self.comm) as hf:
             for iter_str in iter_strs:
+                if iter_str in hf:
+                    # Step was recomputed for checkpointing.
+                    continue
+                new_groups.append(iter_str)
                 hf.create_group(iter_str)
                 hf[iter_str].create_dataset("time", shape=(1,), dtype=np.float64)
                 for (
@@ -108,7 +125,7 @@ class OpenMDAOHDF5Callback(Callback):
         discretization_scheme: TimeDiscretizationSchemeInterface,
     ) -> None:
         """
-        Writes into the datasets previously created by `before_iteration`, if necessary
+        Creates the datasets for the current step and writes into them, if necessary
         wrt. to self.write_out_period. In the first iteration, also writes out the
         initial values.
 
@@ -124,6 +141,27 @@ class OpenMDAOHDF5Callback(Callback):
             Currently unused. Probably will be necessary to be used once the use of
             arbitrary time discretizations is fully supported by the time integration.
         """
+        new_groups = []
+        try:
+            self._create_datasets(iteration, time_integration_state, ode, new_groups)
+            self._write_datasets(iteration, time_integration_state, ode)
+        except BaseException:
+            # Don't keep partially written steps.
+            with h5py.File(
+                self.filename, mode="r+", driver="mpio", comm=self.comm
+            ) as hf:
+                for iter_str in new_groups:
+                    if iter_str in hf:
+                        del hf[iter_str]
+            raise
+
+    def _write_datasets(
+        self,
+        iteration: int,
+        time_integration_state: TimeIntegrationState,
+        ode: OpenMDAOODE,
+    ) -> None:
+        """Writes into the datasets created by `_create_datasets`."""
         with h5py.File(self.filename, mode="r+", driver="mpio", comm=self.comm) as hf:
             # Write out initial values.
             if iteration == 1:
-- 
2.43.0


From e8f4913c713db5d5b5d03e9f7acaf642b3f3f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:58 +0000
Subject: [PATCH 18/34] fix: keep disk checkpoints of different checkpointers
 apart

---
 .../pyrevolve_checkpointer.py                 | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index c176f67..fa77609 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -2,6 +2,7 @@
 
 from dataclasses import dataclass, field
 from copy import deepcopy
+import uuid
 import warnings
 
 import pyrevolve as pr
@@ -84,12 +85,18 @@ class PyrevolveCheckpointer(CheckpointInterface):
                     if storage_type == "Numpy":
                         storage_list.append(pr.NumpyStorage(checkpoint.size, **options))
                     elif storage_type == "Disk":
-                        storage_list.append(pr.DiskStorage(checkpoint.size, **options))
+                        storage_list.append(
+                            pr.DiskStorage(
+                                checkpoint.size, **self._with_unique_filedir(options)
+                            )
+                        )
                     elif storage_type == "Bytes":
                         storage_list.append(pr.BytesStorage(checkpoint.size, **options))
                 self.revolver_options[key] = storage_list
             else:
                 self.revolver_options[key] = value
+        if self.revolver_type in ["Disk", "SingleLevel"]:
+            self.revolver_options = self._with_unique_filedir(self.revolver_options)
         self.revolver_options["checkpoint"] = checkpoint
         self.revolver_options["n_timesteps"] = num_steps - 1
 
@@ -109,6 +116,18 @@ class PyrevolveCheckpointer(CheckpointInterface):
         )
         self._revolver = None
 
+    @staticmethod
+    def _with_unique_filedir(options: dict) -> dict:
+        """
+        Prefixes the directory in which pyRevolve writes checkpoints with an unique
+        name, since pyRevolve itself only distinguishes them by second and process.
+        """
+        filedir = options.get("filedir")
+        return {
+            **options,
+            "filedir": f"{'./' if filedir is None else filedir}{uuid.uuid4().hex}_",
+        }
+
     def create_checkpointer(self):
         """Creates the actual revolver object used for checkpointing by Pyrevolve."""
         # The first step is not handled by the revolver, and pyRevolve can't handle the
-- 
2.43.0


From 37836ad69e7ec5cf8fa5aca7160fbe45d12cc75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:07 +0000
Subject: [PATCH 19/34] fix: support norms of quantities without local entries

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 7236ae8..8e2a242 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -411,6 +411,9 @@ class OpenMDAOODE(DiscretizedODE):
     ) -> float:
         start = quantity.array_metadata.start_index
         end = quantity.array_metadata.end_index
+        if start == end:
+            # Quantity has no entries on this rank (not supported by all norm orders).
+            return 0.0
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
         return np.linalg.norm(state[start:end], order) ** exponent
 
-- 
2.43.0


From 321a6d164bbb85b00d0fef785f741463e2770d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:48 +0000
Subject: [PATCH 20/34] fix: keep disk checkpoints of subsequent revolvers of a
 checkpointer apart

The directory of a revolver is deleted once it is garbage collected, which can
happen after the next revolver of the same checkpointer was created in the same
directory (e.g. when the traceback of a failure keeps the former alive).
---
 .../checkpoint_interface/pyrevolve_checkpointer.py       | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index fa77609..be2110c 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -95,8 +95,6 @@ class PyrevolveCheckpointer(CheckpointInterface):
                 self.revolver_options[key] = storage_list
             else:
                 self.revolver_options[key] = value
-        if self.revolver_type in ["Disk", "SingleLevel"]:
-            self.revolver_options = self._with_unique_filedir(self.revolver_options)
         self.revolver_options["checkpoint"] = checkpoint
         self.revolver_options["n_timesteps"] = num_steps - 1
 
@@ -133,7 +131,12 @@ class PyrevolveCheckpointer(CheckpointInterface):
         # The first step is not handled by the revolver, and pyRevolve can't handle the
         # case of no remaining steps.
         if self.revolver_options["n_timesteps"] > 0:
-            self._revolver = self._revolver_class_type(**self.revolver_options)
+            options = self.revolver_options
+            if self.revolver_type in ["Disk", "SingleLevel"]:
+                # Also the revolvers of one checkpointer need to be kept apart, since an
+                # earlier one may delete its directory at any later point in time.
+                options = self._with_unique_filedir(options)
+            self._revolver = self._revolver_class_type(**options)
 
     def _setup_revolver_class_type(self, revolver_type: str) -> type:
         """
-- 
2.43.0


From 48cd91247efd39feca1c5c170ded47fae6b7af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:45 +0000
Subject: [PATCH 21/34] fix: ignore error measures of zero in the history of
 error controllers

They led to suggested step sizes of zero, with which a time integration with
predefined final time never terminates.
---
 src/rkopenmdao/error_controller.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 9bb47c9..6a1cdec 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -245,8 +245,12 @@ class ErrorController:
         """
         delta_t_new = self.config.safety_factor * delta_t
         delta_t_new *= (self.config.tol / error_measure) ** self.alpha
-        delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
-        delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
+        # As for the step sizes, an error measure of zero in the history doesn't contain
+        # usable information, and would lead to a step size of zero or infinity.
+        if error_history[0] != 0.0:
+            delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
+        if error_history[1] != 0.0:
+            delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
         if step_size_history[0] != 0.0:
             delta_t_new *= (delta_t / step_size_history[0]) ** self.a
             if step_size_history[1] != 0.0:
-- 
2.43.0


From d29c72af7ff5194f9a64e0c52e5f8d05b3fea465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:40 +0000
Subject: [PATCH 22/34] fix: keep the shape of distributed independent inputs
 that are empty on a rank

---
 src/rkopenmdao/runge_kutta_integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index a07318e..94786e1 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -352,9 +352,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             self.add_input(
                 quantity.name,
                 shape=quantity.array_metadata.shape,
+                # Same issue with arrays of size 0 as above.
                 val=time_stage_problem.get_val(
                     quantity.translation_metadata.time_independent_input_var
-                ),
+                ).reshape(quantity.array_metadata.shape),
                 distributed=quantity.array_metadata.distributed,
             )
 
-- 
2.43.0


From 795c07eba6d0ec694dcc83b67d69892f8e6f18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:00 +0000
Subject: [PATCH 23/34] fix: decide collectively whether reverse mode has to
 recompute the checkpoints

---
 src/rkopenmdao/runge_kutta_integrator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 94786e1..8c73aaa 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 from collections.abc import Callable
 from copy import deepcopy
 
+from mpi4py import MPI
 import numpy as np
 import openmdao.api as om
 from openmdao.vectors.vector import Vector as OMVector
@@ -860,7 +861,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         temporary_integration_state.discretization_state.final_time[0] = inputs[
             "time_initial"
         ][0]
-        if self._cached_input is None or not (
+        checkpoints_outdated = self._cached_input is None or not (
             np.array_equal(
                 self._cached_input.final_state,
                 temporary_integration_state.discretization_state.final_state,
@@ -873,7 +874,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.final_time,
                 temporary_integration_state.discretization_state.final_time,
             )
-        ):
+        )
+        if self.comm.size > 1:
+            # compute() is collective, so either all ranks call it or none does
+            checkpoints_outdated = self.comm.allreduce(checkpoints_outdated, MPI.LOR)
+        if checkpoints_outdated:
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
             outputs = self._vector_class("nonlinear", "output", self)
-- 
2.43.0


From d99e5917984bdeb53195a16edfc1a57a2b9e34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 24/34] fix: KapsComponent2: denominator of the linear solve in
 reverse mode

It had a factor where solve_linear in forward mode (correctly) has a summand, so
adjoints were wrong whenever the component's own solve_linear was used for stages
with nonzero diagonal element.
---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From d08007edcf44c6d8b5e3ac600b2fecd46a3e56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 25/34] fix: KapsGroup: derivatives for stages with zero
 diagonal element

LinearBlockJac starts with whatever is left in the vectors by previous
applications, so as a preconditioner it is no linear operator. For e.g. unit vectors
as seeds and a zero diagonal element it returned zero for a nonzero vector; PETSc
takes that for a breakdown at the solution and stopped with derivatives that were off
by half. GMRES is exact for this four by four system without a preconditioner.
---
 src/rkopenmdao/odes/kaps.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index be98204..b978ef5 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -323,7 +323,6 @@ class KapsGroup(om.Group):
         self.linear_solver = om.PETScKrylov(
             iprint=-1, restart=10, atol=1e-15, rtol=1e-15
         )
-        self.linear_solver.precon = om.LinearBlockJac(iprint=-1, maxiter=1)
 
     @staticmethod
     def get_initial_values():
-- 
2.43.0


From 409b71d8ea927026385450f6434544220bd6bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 26/34] fix: state norm of order -inf was always zero

The minimum over the quantities started at zero, and so did the one over ranks without
entries.
---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 8e2a242..d6df9e8 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -381,8 +381,9 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        non_distributed_intermediate = 0.0
-        distributed_intermediate = 0.0
+        # neutral element of _add_to_intermediate
+        non_distributed_intermediate = np.inf if self._norm_order == -np.inf else 0.0
+        distributed_intermediate = non_distributed_intermediate
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.name not in self._norm_exclusions:
                 norm_intermediate = self._partial_norm_intermediate(
@@ -413,7 +414,7 @@ class OpenMDAOODE(DiscretizedODE):
         end = quantity.array_metadata.end_index
         if start == end:
             # Quantity has no entries on this rank (not supported by all norm orders).
-            return 0.0
+            return np.inf if order == -np.inf else 0.0
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
         return np.linalg.norm(state[start:end], order) ** exponent
 
-- 
2.43.0


From bfb1a1babc657a4c761936e1247cd1740c6b9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:44 +0000
Subject: [PATCH 27/34] fix: evaluate the solution with the initial values of
 all quantities when reading errors

---
 src/rkopenmdao/file_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index fb9b344..90161de 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -258,7 +258,8 @@ def read_hdf5_file(
                     result[quantity][int(key)][row] = group[quantity][row]
 
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
+                    # The solution depends on the initial values of all quantities.
+                    quan_result = [f["0"][q][...] for q in quantities]
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-- 
2.43.0


From d7627e0561beda9c16555e99e1f9ff5e770dce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 28/34] fix: create output directories for relative paths and
 with other processes around

---
 src/rkopenmdao/utils/problems.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index d5ad166..7e8a2f2 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -27,10 +27,11 @@ def generate_path(path: str):
     if it doesn't exist
     """
     if path[-3::] == ".h5" or path[-4::] == ".png":
-        idx = path.rfind("/")
-        directory_path = path[: idx + 1]
-        if not os.path.exists(directory_path):
-            os.makedirs(directory_path)
+        directory_path = os.path.dirname(path)
+        # No directory means the current one. Other processes may create the directory
+        # at the same time.
+        if directory_path and not os.path.exists(directory_path):
+            os.makedirs(directory_path, exist_ok=True)
             print(f"The path to {directory_path} has been paved.")
     return path
 
-- 
2.43.0


From fadca584329fdcda9143dcd79e9c6ff438653ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 29/34] fix: different step sizes of an experiment need
 different files

---
 src/rkopenmdao/utils/problems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index 7e8a2f2..f926a4b 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -73,8 +73,10 @@ class Problem:
             name = butcher_name.replace(" ", "_").replace(",", "").lower()
             return name, self.folder_path / _type / f"{name}.h5"
         elif isinstance(_type, float):
+            # All digits are needed, different step sizes need different files.
+            step_size = np.format_float_scientific(_type, trim="-", exp_digits=2)
             name = (
-                f"data_{_type:.0E}_{butcher_name}".replace(" ", "_")
+                f"data_{step_size}_{butcher_name}".replace(" ", "_")
                 .replace(",", "")
                 .lower()
             )
-- 
2.43.0


From 4eda3a9b1caa4bd8e33bfe7184d26fb8a5411f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 30/34] fix: convergence study imported a tableau that does not
 exist

---
 examples/convergence_study/integration_scripts/constants.py | 2 +-
 examples/convergence_study/visualization/constants.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/convergence_study/integration_scripts/constants.py b/examples/convergence_study/integration_scripts/constants.py
index bf11199..614e47c 100644
--- a/examples/convergence_study/integration_scripts/constants.py
+++ b/examples/convergence_study/integration_scripts/constants.py
@@ -6,7 +6,7 @@ from rkopenmdao.butcher_tableau import ButcherTableau
 from rkopenmdao.butcher_tableaux import (
     embedded_second_order_two_stage_sdirk as second_order_sdirk,
     embedded_second_order_three_stage_esdirk as second_order_esdirk,
-    embedded_third_order_three_stage_sdirk as third_order_sdirk,
+    embedded_third_order_three_stage_sdirk1 as third_order_sdirk,
     embedded_third_order_four_stage_esdirk as third_order_esdirk,
     embedded_fourth_order_four_stage_sdirk as fourth_order_sdirk,
     embedded_fourth_order_five_stage_esdirk as fourth_order_esdirk,
diff --git a/examples/convergence_study/visualization/constants.py b/examples/convergence_study/visualization/constants.py
index e8f09bf..ef677f1 100644
--- a/examples/convergence_study/visualization/constants.py
+++ b/examples/convergence_study/visualization/constants.py
@@ -6,7 +6,7 @@ from rkopenmdao.butcher_tableau import ButcherTableau
 from rkopenmdao.butcher_tableaux import (
     embedded_second_order_two_stage_sdirk as second_order_sdirk,
     embedded_second_order_three_stage_esdirk as second_order_esdirk,
-    embedded_third_order_three_stage_sdirk as third_order_sdirk,
+    embedded_third_order_three_stage_sdirk1 as third_order_sdirk,
     embedded_third_order_four_stage_esdirk as third_order_esdirk,
     embedded_fourth_order_four_stage_sdirk as fourth_order_sdirk,
     embedded_fourth_order_five_stage_esdirk as fourth_order_esdirk,
-- 
2.43.0


From 629a4ede1c786bd28191f72562169b891274c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 31/34] fix: setup failed for time-independent inputs that are
 not local to a rank

---
 src/rkopenmdao/runge_kutta_integrator.py | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 8c73aaa..eec1555 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -350,15 +350,22 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         for (
             quantity
         ) in self._ode.time_integration_metadata.time_independent_input_quantity_list:
-            self.add_input(
-                quantity.name,
-                shape=quantity.array_metadata.shape,
-                # Same issue with arrays of size 0 as above.
-                val=time_stage_problem.get_val(
-                    quantity.translation_metadata.time_independent_input_var
-                ).reshape(quantity.array_metadata.shape),
-                distributed=quantity.array_metadata.distributed,
-            )
+            if quantity.array_metadata.local:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    # Same issue with arrays of size 0 as above.
+                    val=time_stage_problem.get_val(
+                        quantity.translation_metadata.time_independent_input_var
+                    ).reshape(quantity.array_metadata.shape),
+                    distributed=quantity.array_metadata.distributed,
+                )
+            else:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    distributed=quantity.array_metadata.distributed,
+                )
 
     def _setup_wrt_and_of_vars(self):
         self._add_time_integration_derivative_info()
-- 
2.43.0


From e15e395c79d7f9edf005b78aa614345cd535743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 32/34] fix: end of reverse mode was reported as end of forward
 mode

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index eec1555..3ef1234 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -842,7 +842,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
         if self.comm.rank == 0:
             print(
-                "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
+                "\n\n" + "=" * 25 + " rev-mode jacvec product ends " + "=" * 25 + "\n"
             )
 
     def _compute_jacvec_rev_preparation_phase(
-- 
2.43.0


From 7149085d7d8c90593c5b2a248e380bba55f7d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 33/34] fix: sizes of time-independent inputs were looked up
 among the outputs

Setup failed, or indices were wrong, for distributed time-independent inputs.
---
 src/rkopenmdao/metadata_extractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..262873d 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -177,15 +177,16 @@ def _create_local_array_metadata(
     end_index: int,
     detailed_var: str,
     detailed_data: dict,
+    io_type: str = "output",
 ) -> ArrayMetadata:
     if detailed_data["shape"] != detailed_data["global_shape"]:
         try:
-            sizes = stage_problem.model._var_sizes["output"][
+            sizes = stage_problem.model._var_sizes[io_type][
                 :,
                 stage_problem.model._var_allprocs_abs2idx[detailed_var],
             ]
         except KeyError:  # Have to deal with an older openMDAO version
-            sizes = stage_problem.model._var_sizes["nonlinear"]["output"][
+            sizes = stage_problem.model._var_sizes["nonlinear"][io_type][
                 :,
                 stage_problem.model._var_allprocs_abs2idx["nonlinear"][detailed_var],
             ]
@@ -359,6 +360,7 @@ def _extract_time_independent_quantity(
                 end_index=end_index,
                 detailed_var=detailed_var,
                 detailed_data=detailed_data,
+                io_type="input",
             )
 
     if found_time_independent_input_var > 1:
-- 
2.43.0


From 3ead24400e0f6b9f68d03de955ff428c7abc7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:49 +0000
Subject: [PATCH 34/34] Revert "fix: convergence study imported a tableau that
 does not exist"

This reverts commit 4eda3a9b1caa4bd8e33bfe7184d26fb8a5411f35.
---
 examples/convergence_study/integration_scripts/constants.py | 2 +-
 examples/convergence_study/visualization/constants.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/convergence_study/integration_scripts/constants.py b/examples/convergence_study/integration_scripts/constants.py
index 614e47c..bf11199 100644
--- a/examples/convergence_study/integration_scripts/constants.py
+++ b/examples/convergence_study/integration_scripts/constants.py
@@ -6,7 +6,7 @@ from rkopenmdao.butcher_tableau import ButcherTableau
 from rkopenmdao.butcher_tableaux import (
     embedded_second_order_two_stage_sdirk as second_order_sdirk,
     embedded_second_order_three_stage_esdirk as second_order_esdirk,
-    embedded_third_order_three_stage_sdirk1 as third_order_sdirk,
+    embedded_third_order_three_stage_sdirk as third_order_sdirk,
     embedded_third_order_four_stage_esdirk as third_order_esdirk,
     embedded_fourth_order_four_stage_sdirk as fourth_order_sdirk,
     embedded_fourth_order_five_stage_esdirk as fourth_order_esdirk,
diff --git a/examples/convergence_study/visualization/constants.py b/examples/convergence_study/visualization/constants.py
index ef677f1..e8f09bf 100644
--- a/examples/convergence_study/visualization/constants.py
+++ b/examples/convergence_study/visualization/constants.py
@@ -6,7 +6,7 @@ from rkopenmdao.butcher_tableau import ButcherTableau
 from rkopenmdao.butcher_tableaux import (
     embedded_second_order_two_stage_sdirk as second_order_sdirk,
     embedded_second_order_three_stage_esdirk as second_order_esdirk,
-    embedded_third_order_three_stage_sdirk1 as third_order_sdirk,
+    embedded_third_order_three_stage_sdirk as third_order_sdirk,
     embedded_third_order_four_stage_esdirk as third_order_esdirk,
     embedded_fourth_order_four_stage_sdirk as fourth_order_sdirk,
     embedded_fourth_order_five_stage_esdirk as fourth_order_esdirk,
-- 
2.43.0

