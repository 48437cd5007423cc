From 88e4fd059991143945ed64a310eba4e1fe03d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 01/47] fix: do not overwrite the visible solution while a
 Runge-Kutta step is in flight

The in-place update aliased the array held by the discrete solution, so a step
which is rejected afterwards (non-finite values, failing CFL check) already
replaced the last accepted values.
---
 core/ode_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index 278bbf5..cfc61b0 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -86,7 +86,7 @@ class ExplicitRungeKuttaMethod(Generic[T]):
 
             stages.append(self._right_hand_side(time_node, stage_value))
 
-        self._solution += time_step * np.sum(
+        self._solution = self._solution + time_step * np.sum(
             np.array([weight * stage for weight, stage in zip(self._weights, stages)]),
             axis=0,
         )
-- 
2.43.0


From 377ce266a56c6bea978ce4ff01d06658e9ec70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 02/47] fix: keep time and value history aligned when recording
 a step fails

If allocating the longer history failed after the solution was updated, the
histories and the solution disagreed about the last accepted step.
---
 core/discrete_solution.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index fd2cd8c..f01e6f7 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -103,11 +103,12 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
         return self._value_history.copy()
 
     def update(self, time_step: float, value: np.ndarray):
-        self._solution.update(time_step, value)
-        self._time_history = np.append(self.time_history, self.time)
-        self._value_history = np.append(
+        time_history = np.append(self.time_history, self.time + time_step)
+        value_history = np.append(
             self.value_history, np.array([value.copy()]), axis=0
         )
+        self._solution.update(time_step, value)
+        self._time_history, self._value_history = time_history, value_history
 
     def set_value(self, value: np.ndarray, time=0.0):
         values_past = self.time_history < time
@@ -157,8 +158,9 @@ class CoarseSolutionWithHistory(DiscreteSolutionWithHistory[T]):
         return self._solution.space.coarsen(self._coarsener.coarsening_degree)
 
     def update(self, time_step: float, value: np.ndarray):
-        self._solution.update(time_step, value)
-        self._time_history = np.append(self.time_history, self.time)
-        self._value_history = np.append(
+        time_history = np.append(self.time_history, self.time + time_step)
+        value_history = np.append(
             self.value_history, np.array([self._coarsener(value)]), axis=0
         )
+        self._solution.update(time_step, value)
+        self._time_history, self._value_history = time_history, value_history
-- 
2.43.0


From 29512bf0d799f6042c58703316479f51084a1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 03/47] fix: flux approximation cache must not depend on
 uninitialised or reused memory

The cache key started as uninitialised memory (AttributeError for a DOF vector
which happens to equal it) and was kept by reference (stale flux after the
caller changes the vector in place).
---
 finite_element/flux_approximation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index d7434f1..59e1722 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -19,7 +19,7 @@ class FluxApproximation:
 
     _flux: Callable[[np.ndarray], np.ndarray]
     _flux_approximation: np.ndarray
-    _last_dof_vector = np.empty(1)
+    _last_dof_vector = np.full(1, np.nan)
 
     def __init__(self, flux: Callable[[np.ndarray], np.ndarray]):
         self._flux = flux
@@ -27,7 +27,7 @@ class FluxApproximation:
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
         if (dof_vector != self._last_dof_vector).any():
             self._flux_approximation = self._flux(dof_vector)
-            self._last_dof_vector = dof_vector
+            self._last_dof_vector = dof_vector.copy()
 
         return self._flux_approximation
 
-- 
2.43.0


From c7821593caf9da47dfc8e56841abd4a246108c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 04/47] fix: accept initial_time in RungeKutta8 like every
 other Runge-Kutta method

Solvers pass initial_time by keyword, so continuous Galerkin of degree three or
higher could not be constructed.
---
 core/ode_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index cfc61b0..f43654d 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -130,9 +130,12 @@ class RungeKutta8(ExplicitRungeKuttaMethod):
     """
 
     def __init__(
-        self, right_hand_side: Callable[[float, T], T], initial_value: T, start_time=0
+        self,
+        right_hand_side: Callable[[float, T], T],
+        initial_value: T,
+        initial_time=0.0,
     ):
-        super().__init__(right_hand_side, initial_value, start_time)
+        super().__init__(right_hand_side, initial_value, initial_time)
         self._build_runge_kutta_matrix()
         self._build_weights()
         self._build_nodes()
-- 
2.43.0


From 9c1ec036cbed9c002760053664c6641a4334bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 05/47] fix: use absolute characteristic speeds for the scalar
 Lax-Friedrichs flux

For Burgers' equation with negative states the maximum of the signed speeds made
the flux antidiffusive: the default benchmark left the range of its initial data.
---
 finite_volume/scalar/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index f7aa1b3..5b94624 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -22,7 +22,7 @@ class WaveSpeed:
 
     def __call__(self, value_left, value_right) -> Tuple:
         wave_speed = np.maximum(
-            self._flux_prime(value_left), self._flux_prime(value_right)
+            np.abs(self._flux_prime(value_left)), np.abs(self._flux_prime(value_right))
         )
 
         return -wave_speed, wave_speed
-- 
2.43.0


From 879746c2752130cd40ea0bca039f912022d31cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 06/47] fix: well-defined bar states where no wave moves

Two neighbouring cells without any wave speed (e.g. a zero state of Burgers'
equation) gave 0/0 and the calculation aborted with non-finite values.
---
 core/riemann_solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/riemann_solver.py b/core/riemann_solver.py
index 09a0837..0878d87 100644
--- a/core/riemann_solver.py
+++ b/core/riemann_solver.py
@@ -1,5 +1,7 @@
 from typing import Any, Callable, Tuple
 
+import numpy as np
+
 FLUX = Callable
 WAVE_SPEED = Callable
 
@@ -28,12 +30,12 @@ class RiemannSolver:
             value_left, value_right
         )
 
-        factor = 1 / (self._wave_speed_right - self._wave_speed_left)
-        self.intermediate_state = factor * (
+        speed_range = self._wave_speed_right - self._wave_speed_left
+        self.intermediate_state = (
             self._wave_speed_right * value_right
             - self._wave_speed_left * value_left
             - (self.flux_right - self.flux_left)
-        )
+        ) / np.where(speed_range == 0, 1, speed_range)
 
         return (
             self.flux_left
-- 
2.43.0


From 59e2c87ced27849aadbeaf0bb355e02eab2f994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 07/47] fix: limit both copies of the periodic boundary node
 alike in the scalar FV-MCL flux

Local bounds of the ghost cells missed neighbours of the cells they copy, so the
two fluxes through the periodic boundary differed and mass was not conserved.
---
 finite_volume/scalar/solver/mcl.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 9abc814..4af1f12 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -43,8 +43,10 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         self,
         riemann_solver: core.RiemannSolver,
         neighbours_indices: core.NeighbourIndicesMapping,
+        periodic=False,
     ):
         super().__init__(riemann_solver)
+        self._periodic = periodic
         self._high_order_flux = finite_volume.CentralFlux(riemann_solver.flux)
         self._local_maximum = core.LocalMaximum(neighbours_indices)
         self._local_minimum = core.LocalMinimum(neighbours_indices)
@@ -80,7 +82,14 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         return -low_order_flux + limited_flux_left, low_order_flux + limited_flux_right
 
     def _get_bounds(self, dof_vector: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        return self._local_maximum(dof_vector), self._local_minimum(dof_vector)
+        bounds = self._local_maximum(dof_vector), self._local_minimum(dof_vector)
+
+        if self._periodic:
+            # ghost cells have the bounds of the cells they are copies of
+            for bound in bounds:
+                bound[0], bound[-1] = bound[-2], bound[1]
+
+        return bounds
 
 
 class MCLFluxGetter(finite_volume.FluxGetter):
@@ -88,10 +97,10 @@ class MCLFluxGetter(finite_volume.FluxGetter):
         self, benchmark: core.Benchmark, space: finite_volume.FiniteVolumeSpace
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
-        neighbours_mapping = finite_volume.NeighbourIndicesMapping(
-            len(space.mesh) + 2, benchmark.boundary_conditions == ("periodic",)
-        )
-        return MCLFlux(riemann_solver, neighbours_mapping)
+        neighbours_mapping = finite_volume.NeighbourIndicesMapping(len(space.mesh) + 2)
+        periodic = benchmark.boundary_conditions == ("periodic",)
+
+        return MCLFlux(riemann_solver, neighbours_mapping, periodic)
 
 
 class MCLSolver(finite_volume.Solver):
-- 
2.43.0


From 005e27051cf98bdada4c0d34ba0a597e61bea335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 08/47] fix: pass save_plot to ShallowWaterPlotter when saving
 error series plots

---
 command/error_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 5367268..2dbcc28 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -259,7 +259,7 @@ class GenerateShallowWaterErrorEvolutionSeries(Command):
 
         if self._save_plot:
             plotter = ShallowWaterPlotter(
-                benchmark, show=False, save=f"{self._directory}/plot_{index}.png"
+                benchmark, show=False, save_plot=f"{self._directory}/plot_{index}.png"
             )
             Plot(
                 benchmark, solver, plotter, solver_executed=True, write_warnings=False
-- 
2.43.0


From dae77b05a97e8236bbe6957e9f372f921d207845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 09/47] fix: close every hidden figure so that later plots in
 the process start clean

---
 command/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/plot.py b/command/plot.py
index 48ee71d..5b9dd09 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -87,7 +87,7 @@ class Plotter(ABC, Generic[T]):
         ...
 
     def _show_plots(self):
-        plt.show() if self._show else plt.close()
+        plt.show() if self._show else plt.close("all")
 
     def __repr__(self) -> str:
         return self.__class__.__name__
-- 
2.43.0


From 1fc5bcb5172d4c10fbb0783446bd9e07f32e32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 10/47] fix: write csv header when appending generated data to
 a missing or empty file

---
 command/generate_data.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 3b9d4b6..a35ec23 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -376,13 +376,19 @@ class GenerateData(Command):
         benchmark_data: pd.DataFrame,
         overwrite: bool,
     ):
-        subgrid_flux_data.to_csv(
-            self._subgrid_flux_path, mode="w" if overwrite else "a", header=overwrite
-        )
-        benchmark_data.to_csv(
-            self._benchmark_path, mode="w" if overwrite else "a", header=overwrite
+        self._write_csv(subgrid_flux_data, self._subgrid_flux_path, overwrite)
+        self._write_csv(benchmark_data, self._benchmark_path, overwrite)
+
+    def _write_csv(self, data: pd.DataFrame, path: str, overwrite: bool):
+        data.to_csv(
+            path,
+            mode="w" if overwrite else "a",
+            header=overwrite or self._is_missing_or_empty(path),
         )
 
+    def _is_missing_or_empty(self, path: str) -> bool:
+        return not os.path.isfile(path) or os.path.getsize(path) == 0
+
 
 class GenerateDataParser(CalculateParser):
     def _get_parser(self, parsers) -> Any:
-- 
2.43.0


From 08acea324c461c8af35d09353198aa0e6dfbd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 11/47] fix: let generate-data --end-time reach the solver that
 generates the data

---
 command/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index a35ec23..8a66bfa 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -480,6 +480,8 @@ class GenerateDataParser(CalculateParser):
         self._build_directory(arguments)
         arguments.overwrite = not arguments.append
         arguments.benchmark = shallow_water.OscillationNoTopographyBenchmark()
+        if arguments.end_time:
+            arguments.benchmark.end_time = arguments.end_time
         self._build_solver(arguments)
         arguments.solver = arguments.solver[0]
 
-- 
2.43.0


From 276fa69d36ed54ef64e7f80728992db00646fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 12/47] fix: keep the generated-data histories aligned when
 recording a step fails

---
 command/generate_data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 8a66bfa..cf11dd6 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -95,17 +95,20 @@ class DiscreteSolutionWithInputData(core.DiscreteSolution[T]):
 
     def update(self, time_step: float, value: np.ndarray):
         self._solution.update(time_step, value)
-        self._time_history = np.append(self.time_history, self.time)
-        self._coarse_node_neighbours_history = np.append(
+        time_history = np.append(self.time_history, self.time)
+        coarse_node_neighbours_history = np.append(
             self.coarse_node_neighbours_history,
             np.array([self.coarse_node_neighbours]),
             axis=0,
         )
-        self._fine_node_neighbours_history = np.append(
+        fine_node_neighbours_history = np.append(
             self.fine_node_neighbours_history,
             np.array([self.fine_node_neighbours]),
             axis=0,
         )
+        self._time_history = time_history
+        self._coarse_node_neighbours_history = coarse_node_neighbours_history
+        self._fine_node_neighbours_history = fine_node_neighbours_history
 
     def set_value(self, value: np.ndarray, time=0.0):
         values_past = self._time_history < time
-- 
2.43.0


From 13118899e6f8903d1b3fe6cf08fab651c2fafec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 13/47] fix: retry loading a reduced network whose parameters
 could not be loaded

---
 finite_volume/shallow_water/solver/reduced_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index a63293a..3eaa701 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -66,7 +66,8 @@ class ReducedNetwork(NeuralNetRegressor):
         print(f"Saved input scaler in '{self.input_scaler_path}'.")
         print(f"Saved output scaler in '{self.output_scaler_path}'.")
 
-    def load_params(self, load_history=False):
+    def load_params(self, load_history=False) -> bool:
+        """Returns True if all parameters needed for predicting are loaded."""
         self.initialize()
         try:
             self._load_network_params(load_history)
@@ -74,6 +75,9 @@ class ReducedNetwork(NeuralNetRegressor):
             self._load_output_scaler()
         except Exception as error:
             print(f"{error}. Network could not be loaded. Use an untrained network.")
+            return False
+
+        return True
 
     def _load_network_params(self, load_history: bool):
         optimizer_path = None
@@ -167,8 +171,7 @@ class ApproximatedSubgridFlux(finite_volume.NumericalFlux):
         return -subgrid_flux, subgrid_flux
 
     def _load_network(self):
-        self._network.load_params()
-        self._loaded = True
+        self._loaded = self._network.load_params()
 
 
 class ReducedFluxGetter(swe.FluxGetter):
-- 
2.43.0


From a3e52695d10acae55708b8f4dc0e569c4d6bcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 14/47] fix: an interrupted save must not be loadable as a
 mixture of two networks

---
 finite_volume/shallow_water/solver/reduced_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index 3eaa701..c44db68 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -50,6 +50,7 @@ class ReducedNetwork(NeuralNetRegressor):
         return self._output_scaler.inverse_transform(y)
 
     def save_params(self):
+        self._invalidate_saved_params()
         super().save_params(
             f_params=self.network_path,
             f_optimizer=self.optimizer_path,
@@ -66,6 +67,12 @@ class ReducedNetwork(NeuralNetRegressor):
         print(f"Saved input scaler in '{self.input_scaler_path}'.")
         print(f"Saved output scaler in '{self.output_scaler_path}'.")
 
+    def _invalidate_saved_params(self):
+        """The output scaler is written last. Without it nothing can be loaded,
+        i.e. an interrupted save never mixes the parameters of two networks."""
+        if os.path.isfile(self.output_scaler_path):
+            os.remove(self.output_scaler_path)
+
     def load_params(self, load_history=False) -> bool:
         """Returns True if all parameters needed for predicting are loaded."""
         self.initialize()
@@ -75,6 +82,8 @@ class ReducedNetwork(NeuralNetRegressor):
             self._load_output_scaler()
         except Exception as error:
             print(f"{error}. Network could not be loaded. Use an untrained network.")
+            self._input_scaler = StandardScaler()
+            self._output_scaler = StandardScaler()
             return False
 
         return True
-- 
2.43.0


From 158faae36ccf9618357c92770bb2563bc12e9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 15/47] fix: appended data must not be glued to a line torn by
 an interrupted run

---
 command/generate_data.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index cf11dd6..e0abcf4 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -383,12 +383,25 @@ class GenerateData(Command):
         self._write_csv(benchmark_data, self._benchmark_path, overwrite)
 
     def _write_csv(self, data: pd.DataFrame, path: str, overwrite: bool):
+        if not overwrite:
+            self._complete_last_line(path)
+
         data.to_csv(
             path,
             mode="w" if overwrite else "a",
             header=overwrite or self._is_missing_or_empty(path),
         )
 
+    def _complete_last_line(self, path: str):
+        """An interrupted run may have left a line without its end."""
+        if self._is_missing_or_empty(path):
+            return
+
+        with open(path, "rb+") as file:
+            file.seek(-1, os.SEEK_END)
+            if file.read(1) not in (b"\n", b"\r"):
+                file.write(os.linesep.encode())
+
     def _is_missing_or_empty(self, path: str) -> bool:
         return not os.path.isfile(path) or os.path.getsize(path) == 0
 
-- 
2.43.0


From c06b993eeb6cf690129231bf10f4bbdc0f557249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 16/47] fix: interrupted overwriting must not pair new data
 with old benchmarks

---
 command/generate_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index e0abcf4..00895a1 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -379,6 +379,10 @@ class GenerateData(Command):
         benchmark_data: pd.DataFrame,
         overwrite: bool,
     ):
+        if overwrite and os.path.isfile(self._benchmark_path):
+            # never pair new data with old benchmarks, even if interrupted
+            os.remove(self._benchmark_path)
+
         self._write_csv(subgrid_flux_data, self._subgrid_flux_path, overwrite)
         self._write_csv(benchmark_data, self._benchmark_path, overwrite)
 
-- 
2.43.0


From 30f7ba2b8be8975c6d155e9e5119a64302366fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 17/47] fix: rewinding a solution reaches the exact time and is
 all or nothing

---
 command/generate_data.py  | 65 +++++++++++++++++++++++----------------
 core/discrete_solution.py | 17 ++++++++--
 2 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 00895a1..7ce6b3a 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -64,13 +64,17 @@ class DiscreteSolutionWithInputData(core.DiscreteSolution[T]):
 
     @property
     def fine_node_neighbours(self) -> np.ndarray:
-        return self.value[self._fine_left_cell_index : self._fine_right_cell_index]
+        return self._get_fine_node_neighbours(self.value)
+
+    def _get_fine_node_neighbours(self, value: np.ndarray) -> np.ndarray:
+        return value[self._fine_left_cell_index : self._fine_right_cell_index]
 
     @property
     def coarse_node_neighbours(self) -> np.ndarray:
-        fine_values = self.value[
-            self._coarse_left_cell_index : self._coarse_right_cell_index
-        ]
+        return self._get_coarse_node_neighbours(self.value)
+
+    def _get_coarse_node_neighbours(self, value: np.ndarray) -> np.ndarray:
+        fine_values = value[self._coarse_left_cell_index : self._coarse_right_cell_index]
         return self._coarsener(fine_values)
 
     @property
@@ -94,33 +98,40 @@ class DiscreteSolutionWithInputData(core.DiscreteSolution[T]):
         return self._fine_node_neighbours_history.copy()
 
     def update(self, time_step: float, value: np.ndarray):
-        self._solution.update(time_step, value)
-        time_history = np.append(self.time_history, self.time)
-        coarse_node_neighbours_history = np.append(
-            self.coarse_node_neighbours_history,
-            np.array([self.coarse_node_neighbours]),
-            axis=0,
-        )
-        fine_node_neighbours_history = np.append(
-            self.fine_node_neighbours_history,
-            np.array([self.fine_node_neighbours]),
-            axis=0,
+        histories = self._get_extended_histories(
+            self.time + time_step, value, slice(None)
         )
-        self._time_history = time_history
-        self._coarse_node_neighbours_history = coarse_node_neighbours_history
-        self._fine_node_neighbours_history = fine_node_neighbours_history
+        self._solution.update(time_step, value)
+        self._set_histories(*histories)
 
     def set_value(self, value: np.ndarray, time=0.0):
-        values_past = self._time_history < time
-        self._time_history = self.time_history[values_past]
-        self._coarse_node_neighbours_history = self.coarse_node_neighbours_history[
-            values_past
-        ]
-        self._fine_node_neighbours_history = self.fine_node_neighbours_history[
-            values_past
-        ]
+        histories = self._get_extended_histories(
+            time, value, self._time_history < time
+        )
+        self._solution.set_value(value, time)
+        self._set_histories(*histories)
+
+    def _get_extended_histories(
+        self, time: float, value: np.ndarray, past: Any
+    ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
+        return (
+            np.append(self._time_history[past], time),
+            np.append(
+                self._coarse_node_neighbours_history[past],
+                np.array([self._get_coarse_node_neighbours(value)]),
+                axis=0,
+            ),
+            np.append(
+                self._fine_node_neighbours_history[past],
+                np.array([self._get_fine_node_neighbours(value)]),
+                axis=0,
+            ),
+        )
 
-        self.update(time - self.time, value)
+    def _set_histories(self, time: np.ndarray, coarse: np.ndarray, fine: np.ndarray):
+        self._time_history = time
+        self._coarse_node_neighbours_history = coarse
+        self._fine_node_neighbours_history = fine
 
 
 class SubgridFluxDataBuilder:
diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index f01e6f7..01d916e 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -59,6 +59,7 @@ class DiscreteSolution(Generic[T]):
 
     def set_value(self, value: np.ndarray, time=0.0):
         self.update(time - self._time, value)
+        self._time = time  # exactly, not only up to rounding
 
     def __repr__(self) -> str:
         return (
@@ -112,10 +113,17 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
 
     def set_value(self, value: np.ndarray, time=0.0):
         values_past = self.time_history < time
-        self._time_history = self.time_history[values_past]
-        self._value_history = self.value_history[values_past]
+        time_history = np.append(self.time_history[values_past], time)
+        value_history = np.append(
+            self.value_history[values_past],
+            np.array([self._get_recorded_value(value)]),
+            axis=0,
+        )
+        self._solution.set_value(value, time)
+        self._time_history, self._value_history = time_history, value_history
 
-        self.update(time - self.time, value)
+    def _get_recorded_value(self, value: np.ndarray) -> np.ndarray:
+        return value.copy()
 
 
 class CoarseSolution(DiscreteSolution[T]):
@@ -164,3 +172,6 @@ class CoarseSolutionWithHistory(DiscreteSolutionWithHistory[T]):
         )
         self._solution.update(time_step, value)
         self._time_history, self._value_history = time_history, value_history
+
+    def _get_recorded_value(self, value: np.ndarray) -> np.ndarray:
+        return self._coarsener(value)
-- 
2.43.0


From 09b94971348fa1594fa37b71fbfcb6a97eb79d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 18/47] fix: stop with the too-small signal when a time step
 makes no progress

---
 core/time_stepping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/time_stepping.py b/core/time_stepping.py
index 17cf134..aa662c0 100644
--- a/core/time_stepping.py
+++ b/core/time_stepping.py
@@ -143,7 +143,8 @@ class TimeStepping:
         return time_step
 
     def _check_too_small_time_step(self, time_step: float):
-        if time_step < 1e-12:
+        # not negated, since a NaN must be refused as well
+        if not (time_step >= 1e-12 and self.time + time_step > self.time):
             raise TimeStepTooSmallError(f"time step {time_step} is too small.")
 
     def _update_time(self, time_step: float):
-- 
2.43.0


From c8caf518683b7e15ff9712161605e70fc361c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 19/47] fix: solve stops regularly when a constant time step is
 zero or NaN

---
 core/time_stepping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/time_stepping.py b/core/time_stepping.py
index aa662c0..5aa025e 100644
--- a/core/time_stepping.py
+++ b/core/time_stepping.py
@@ -127,6 +127,10 @@ class TimeStepping:
             time_step = self._time_step_generator()
             duration = self._end_time - self._start_time
 
+            # not negated, since a NaN must be refused as well
+            if not time_step >= 1e-12:
+                return 0
+
             time_steps_number = int(duration // time_step)
             time_steps_number += (
                 1 if time_step * time_steps_number < duration - 1e-12 else 0
-- 
2.43.0


From f65a82961e6ff19d94b1450a6eb5a15b1dd979a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 20/47] fix: flux approximation cache survives other shapes and
 changes of the caller's array

The cached advection flux was the caller's own array, and a vector of another
length made every later evaluation fail.
---
 finite_element/flux_approximation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index 59e1722..faa2e17 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -25,9 +25,9 @@ class FluxApproximation:
         self._flux = flux
 
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
-        if (dof_vector != self._last_dof_vector).any():
-            self._flux_approximation = self._flux(dof_vector)
+        if not np.array_equal(dof_vector, self._last_dof_vector):
             self._last_dof_vector = dof_vector.copy()
+            self._flux_approximation = self._flux(self._last_dof_vector)
 
         return self._flux_approximation
 
-- 
2.43.0


From 2fce5e6169a66ecc82c3070c4bd46b52c7242ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 21/47] fix: drop torn lines and headers instead of keeping
 holes when appending data

---
 command/generate_data.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 7ce6b3a..12dc6a2 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -399,7 +399,7 @@ class GenerateData(Command):
 
     def _write_csv(self, data: pd.DataFrame, path: str, overwrite: bool):
         if not overwrite:
-            self._complete_last_line(path)
+            self._remove_torn_end(data, path)
 
         data.to_csv(
             path,
@@ -407,15 +407,22 @@ class GenerateData(Command):
             header=overwrite or self._is_missing_or_empty(path),
         )
 
-    def _complete_last_line(self, path: str):
-        """An interrupted run may have left a line without its end."""
+    def _remove_torn_end(self, data: pd.DataFrame, path: str):
+        """An interrupted run may have left a line without its end or a header
+        without its last line."""
         if self._is_missing_or_empty(path):
             return
 
         with open(path, "rb+") as file:
-            file.seek(-1, os.SEEK_END)
-            if file.read(1) not in (b"\n", b"\r"):
-                file.write(os.linesep.encode())
+            content = file.read()
+            size = content.rfind(b"\n") + 1
+
+            header = data.iloc[:0].to_csv().encode()
+            if size < len(header) and header.startswith(content[:size]):
+                size = 0
+
+            if size < len(content):
+                file.truncate(size)
 
     def _is_missing_or_empty(self, path: str) -> bool:
         return not os.path.isfile(path) or os.path.getsize(path) == 0
-- 
2.43.0


From 28d43eb487d760555a23f02a7f18d6fcb530f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 22/47] fix: energy stable subgrid fluxes of one node must not
 mix different times

---
 .../shallow_water/solver/energy_stable.py     | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index adc92ee..7981bee 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -60,11 +60,7 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_diffusion(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> np.ndarray:
-        entropy = self._entropy(
-            finite_volume.get_dof_vector(value_left, value_right),
-            bathymetry=self._bathymetry,
-        )
-        entropy_step = self._get_entropy_step(entropy)
+        entropy_step = self._get_entropy_step(value_left, value_right)
 
         diffusion_matrix = self._get_diffusion_matrix(value_left, value_right)
 
@@ -119,8 +115,19 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
         )
         return np.moveaxis(Lambda, -1, 0)
 
-    def _get_entropy_step(self, entropy: np.ndarray) -> np.ndarray:
-        entropy_step = np.diff(entropy, axis=0)
+    def _get_entropy_step(
+        self, value_left: np.ndarray, value_right: np.ndarray
+    ) -> np.ndarray:
+        """Note, the i-th values are only neighbours of each other, e.g. they
+        may belong to one node at different times."""
+        is_constant = len(self._bathymetry) == 1
+        bathymetry_left = self._bathymetry if is_constant else self._bathymetry[:-1]
+        bathymetry_right = self._bathymetry if is_constant else self._bathymetry[1:]
+
+        entropy_left = self._entropy(value_left, bathymetry=bathymetry_left)
+        entropy_right = self._entropy(value_right, bathymetry=bathymetry_right)
+        entropy_step = entropy_right - entropy_left
+
         return entropy_step[..., None]
 
 
-- 
2.43.0


From 079131828e5d75ca0470f3ee3759657f85261d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 23/47] fix: report networks with garbled scalers as not loaded

A scaler file which contains another object was loaded successfully, every
prediction failed afterwards and the network was never loaded again.
---
 finite_volume/shallow_water/solver/reduced_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index c44db68..7c1beb6 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -80,6 +80,7 @@ class ReducedNetwork(NeuralNetRegressor):
             self._load_network_params(load_history)
             self._load_input_scaler()
             self._load_output_scaler()
+            self._try_to_predict()
         except Exception as error:
             print(f"{error}. Network could not be loaded. Use an untrained network.")
             self._input_scaler = StandardScaler()
@@ -88,6 +89,10 @@ class ReducedNetwork(NeuralNetRegressor):
 
         return True
 
+    def _try_to_predict(self):
+        """Raises an error if the loaded objects are no or no matching scalers."""
+        self.predict(np.zeros((1, self._input_scaler.n_features_in_), np.float32))
+
     def _load_network_params(self, load_history: bool):
         optimizer_path = None
         history_path = None
-- 
2.43.0


From 40daf9a743bd2f07f13debe81af21eb74fc73ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 24/47] fix: forget half loaded networks before training
 resumes

Resuming a training without a stored network used parameters which were drawn
before the seed was set. Such a seeded training was not reproducible.
---
 finite_volume/shallow_water/solver/reduced_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index 7c1beb6..9a31d53 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -85,6 +85,7 @@ class ReducedNetwork(NeuralNetRegressor):
             print(f"{error}. Network could not be loaded. Use an untrained network.")
             self._input_scaler = StandardScaler()
             self._output_scaler = StandardScaler()
+            self.initialized_ = False  # training starts with new parameters
             return False
 
         return True
-- 
2.43.0


From d6d6fe784fc421bff0e2a144bb7e7dab1ea05a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 25/47] fix: seed the training when it starts

Whatever drew random numbers between the construction of the command and its
execution changed the result of a seeded training.
---
 command/train_network.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/command/train_network.py b/command/train_network.py
index b327069..d6052f0 100644
--- a/command/train_network.py
+++ b/command/train_network.py
@@ -1,6 +1,6 @@
 import argparse
 import random
-from typing import Any, Dict
+from typing import Any, Dict, Optional
 
 import core
 import defaults
@@ -17,6 +17,7 @@ class TrainNetwork(Command):
     _network: ReducedNetwork
     _epochs: int
     _skip: int
+    _seed: Optional[int]
     _plot_loss: bool
     _confirm: bool
 
@@ -34,9 +35,7 @@ class TrainNetwork(Command):
         self._skip = skip or defaults.SKIP
         self._plot_loss = plot_loss
         self._confirm = confirm
-
-        if seed is not None:
-            self._set_seed(seed)
+        self._seed = seed
 
     def _set_seed(self, seed: int):
         torch.manual_seed(seed)
@@ -46,6 +45,9 @@ class TrainNetwork(Command):
         random.seed(seed)
 
     def execute(self):
+        if self._seed is not None:
+            self._set_seed(self._seed)
+
         df = pd.read_csv(
             self._network.data_path, header=[0, 1], skipinitialspace=True, index_col=0
         )
-- 
2.43.0


From 1bdc5bf2e7483216205e8647682a017adecbbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 26/47] fix: do not mix plots with those whose saving failed

A figure which could not be saved stayed open. The next error curve was drawn
into it, and later plots shared it.
---
 command/error_evolution.py | 13 ++++++++++---
 command/plot.py            | 18 +++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 2dbcc28..a94b902 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -152,6 +152,7 @@ class PlotShallowWaterErrorEvolution(Command):
         Calculate(self._solver).execute()
 
     def _plot(self, time: np.ndarray, error: np.ndarray):
+        plt.figure()
         plt.plot(time, error[:, 0], label="Height $L^2$-Error", linewidth=3)
         plt.plot(time, error[:, 1], label="Discharge $L^2$-Error", linewidth=3)
         plt.grid()
@@ -160,7 +161,11 @@ class PlotShallowWaterErrorEvolution(Command):
         plt.tick_params(labelsize="xx-large")
 
         if self._save:
-            plt.savefig(self._save)
+            try:
+                plt.savefig(self._save)
+            except BaseException:
+                plt.close()
+                raise
             tqdm.write(f"Error plot is saved in '{self._save}'.")
 
         plt.show() if self._show else plt.close()
@@ -297,8 +302,10 @@ class PlotShallowWaterAverageErrorEvolution(Command):
         mean = np.mean(errors, axis=0)
         error_max = np.max(errors, axis=0)
 
-        height_figure, height_axes = plt.subplots(num="Height L2-Error")
-        discharge_figure, discharge_axes = plt.subplots(num="Discharge L2-Error")
+        height_figure, height_axes = plt.subplots(num="Height L2-Error", clear=True)
+        discharge_figure, discharge_axes = plt.subplots(
+            num="Discharge L2-Error", clear=True
+        )
 
         for i, ax in enumerate([height_axes, discharge_axes]):
             ax.plot(time, mean[:, i], linewidth=3)
diff --git a/command/plot.py b/command/plot.py
index 5b9dd09..bc24493 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -68,8 +68,12 @@ class Plotter(ABC, Generic[T]):
     def show(self):
         if self._plot_available:
             self._setup()
-            self._save_plots()
-            self._save_results()
+            try:
+                self._save_plots()
+                self._save_results()
+            except BaseException:
+                plt.close("all")
+                raise
             self._show_plots()
         else:
             raise NothingToPlotError
@@ -161,11 +165,15 @@ class ShallowWaterPlotter(Plotter[np.ndarray]):
     def __init__(self, benchmark: swe.ShallowWaterBenchmark, **kwargs):
         Plotter.__init__(self, benchmark, **kwargs)
 
-        self._height_figure, self._height_axes = plt.subplots(num="Height Plot")
+        self._height_figure, self._height_axes = plt.subplots(
+            num="Height Plot", clear=True
+        )
         self._discharge_figure, self._discharge_axes = plt.subplots(
-            num="Discharge Plot"
+            num="Discharge Plot", clear=True
+        )
+        self._velocity_figure, self._velocity_axes = plt.subplots(
+            num="Velocity Plot", clear=True
         )
-        self._velocity_figure, self._velocity_axes = plt.subplots(num="Velocity Plot")
 
         self._build_constant_bathymetry()
 
-- 
2.43.0


From 2a9d22c50069d4c5bf2811372e18ae628ff5de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 27/47] fix: go on if there are no errors to average

If all benchmarks of one parameter failed the whole parameter variation test
was aborted.
---
 command/error_evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index a94b902..7ba403d 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -298,6 +298,10 @@ class PlotShallowWaterAverageErrorEvolution(Command):
         self._save = save
 
     def execute(self):
+        if len(self._errors) == 0:
+            tqdm.write("WARNING: There are no errors to average.")
+            return
+
         time, errors = self._adjust_errors()
         mean = np.mean(errors, axis=0)
         error_max = np.max(errors, axis=0)
-- 
2.43.0


From 4cbf5c84075afed6faf1bdd4bb68faeebc5ce989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 28/47] fix: close the figure of an animation which cannot be
 saved

---
 command/animate.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 094da6e..283e5f3 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -114,18 +114,24 @@ class Animator(ABC, Generic[T]):
 
     def show(self):
         if len(self._animatables) > 0:
-            self._setup()
-
-            if self._save:
-                self._animation.save(
-                    self._save, writer="ffmpeg", fps=self.frames_per_second
-                )
-                tqdm.write(f"Animation is saved in '{self._save}'.")
+            try:
+                self._setup()
+                self._save_animation()
+            except BaseException:
+                plt.close(self._figure)
+                raise
 
             plt.show() if self._show else plt.close()
         else:
             raise NothingToAnimateError
 
+    def _save_animation(self):
+        if self._save:
+            self._animation.save(
+                self._save, writer="ffmpeg", fps=self.frames_per_second
+            )
+            tqdm.write(f"Animation is saved in '{self._save}'.")
+
     def _setup(self):
         self._temporal_grid = reduce(np.union1d, self._temporal_grids)
         self._adjust_values()
-- 
2.43.0


From 651cddc92c05f0dfe92ca293a7d36550c10e1eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 29/47] fix: save animations with fewer frames than seconds

---
 command/animate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 283e5f3..e8ac153 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -79,8 +79,8 @@ class Animator(ABC, Generic[T]):
         return np.where(self._temporal_grid >= self._start_time)[0][0]
 
     @property
-    def frames_per_second(self) -> int:
-        return int((len(self._temporal_grid) - self.start_index) / self._duration)
+    def frames_per_second(self) -> float:
+        return (len(self._temporal_grid) - self.start_index) / self._duration
 
     def set_suptitle(self, suptitle: str):
         self._figure.suptitle(
-- 
2.43.0


From 27ac9f1283b43839e1ef6d99dccd7659e0a19dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 30/47] fix: animate benchmarks without a solver

---
 command/animate.py   | 2 +-
 command/calculate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index e8ac153..cce9f3a 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -404,7 +404,7 @@ class Animate(Command):
         if isinstance(solver, core.Solver):
             self._solver = [solver]
         else:
-            self._solver = solver
+            self._solver = solver or []
 
     def execute(self):
         if not self._solver_executed:
diff --git a/command/calculate.py b/command/calculate.py
index 1a74d33..a4509b9 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -212,5 +212,5 @@ class CalculateParser(CommandParser):
             arguments.solver = solver_list
 
     def _add_save_history_argument(self, arguments):
-        for solver_arguments in arguments.solver:
+        for solver_arguments in arguments.solver or []:
             solver_arguments.save_history = True
-- 
2.43.0


From 783fac1e85a0b96cab5f47f312a70f3006593e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 31/47] fix: close the figures of empty plots and animations

---
 command/animate.py | 20 ++++++++++----------
 command/plot.py    |  1 +
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index cce9f3a..76b47d7 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -113,17 +113,17 @@ class Animator(ABC, Generic[T]):
             self._temporal_grids.append(self._temporal_grid)
 
     def show(self):
-        if len(self._animatables) > 0:
-            try:
-                self._setup()
-                self._save_animation()
-            except BaseException:
-                plt.close(self._figure)
-                raise
+        try:
+            if len(self._animatables) == 0:
+                raise NothingToAnimateError
 
-            plt.show() if self._show else plt.close()
-        else:
-            raise NothingToAnimateError
+            self._setup()
+            self._save_animation()
+        except BaseException:
+            plt.close(self._figure)
+            raise
+
+        plt.show() if self._show else plt.close()
 
     def _save_animation(self):
         if self._save:
diff --git a/command/plot.py b/command/plot.py
index bc24493..2d0356c 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -76,6 +76,7 @@ class Plotter(ABC, Generic[T]):
                 raise
             self._show_plots()
         else:
+            plt.close("all")
             raise NothingToPlotError
 
     @abstractmethod
-- 
2.43.0


From 38db1d6f2ee79446aae3880e7004c3b5cdcd2115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:30 +0000
Subject: [PATCH 32/47] fix: limit the velocity of both cells of a node with
 their own heights

---
 finite_volume/shallow_water/solver/mcl.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index f824d8f..de36a20 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -24,7 +24,8 @@ class MCLFlux(LowOrderFlux):
     _high_order_flux: finite_volume.NumericalFlux
     _boundary_conditions: core.BoundaryConditions
 
-    _limited_height: np.ndarray
+    _limited_height_left: np.ndarray
+    _limited_height_right: np.ndarray
     _velocity_bar_state: np.ndarray
 
     def __init__(
@@ -115,7 +116,10 @@ class MCLFlux(LowOrderFlux):
         self,
         limited_height_flux: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
+        correction = limited_height_flux / self._wave_speed
+
+        self._limited_height_left = self._height_HLL + -correction
+        self._limited_height_right = self._height_HLL + correction
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -129,7 +133,7 @@ class MCLFlux(LowOrderFlux):
 
         limited_fq = limited_fv + -self._wave_speed * (
             self._modified_discharge_right
-            + -self._limited_height * self._velocity_bar_state
+            + -self._limited_height_right * self._velocity_bar_state
         )
 
         return -limited_fq, limited_fq
@@ -144,7 +148,7 @@ class MCLFlux(LowOrderFlux):
     ) -> np.ndarray:
         return antidiffusive_discharge_flux + self._wave_speed * (
             self._modified_discharge_right
-            + -self._limited_height * self._velocity_bar_state
+            + -self._limited_height_right * self._velocity_bar_state
         )
 
     def _get_limited_velocity_fluxes(
@@ -157,12 +161,14 @@ class MCLFlux(LowOrderFlux):
         velocity_min_left, velocity_min_right = velocity_min[:-1], velocity_min[1:]
 
         flux_maximum = self._wave_speed * np.minimum(
-            self._limited_height * (velocity_max_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_min_left),
+            self._limited_height_right
+            * (velocity_max_right - self._velocity_bar_state),
+            self._limited_height_left * (self._velocity_bar_state - velocity_min_left),
         )
         flux_minimum = self._wave_speed * np.maximum(
-            self._limited_height * (velocity_min_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_max_left),
+            self._limited_height_right
+            * (velocity_min_right - self._velocity_bar_state),
+            self._limited_height_left * (self._velocity_bar_state - velocity_max_left),
         )
 
         limited_flux = np.maximum(
-- 
2.43.0


From 890bd4f61f10e80ccb8adf74fe2ed9cd3d4fa4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:48 +0000
Subject: [PATCH 33/47] fix: accept names which are also solver keys as values
 of solver options

---
 core/solver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/solver.py b/core/solver.py
index 1be643b..338c0b7 100644
--- a/core/solver.py
+++ b/core/solver.py
@@ -213,7 +213,7 @@ class SolverAction(argparse.Action):
             if (
                 i > 0
                 and value in self.solver_parsers.keys()
-                and values[i - 1] not in ["+f"]
+                and not self._takes_value(values[0], values[i - 1])
             ):
                 slice_index = i
                 break
@@ -223,6 +223,15 @@ class SolverAction(argparse.Action):
 
         return solver_arguments
 
+    def _takes_value(self, solver_key: str, argument: str) -> bool:
+        """Whether ARGUMENT is an option of the solver followed by its value."""
+        solver_parser = self.solver_parsers.get(solver_key)
+        option = (
+            solver_parser and solver_parser._option_string_actions.get(argument)
+        )
+
+        return option is not None and option.nargs != 0
+
     def _get_solver_namespace(
         self, raw_solver_arguments: Sequence[str]
     ) -> argparse.Namespace:
-- 
2.43.0


From 7d4c59c7a4c0ab3429457bb87b3ceac58595e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 34/47] fix: respect an antidiffusion gamma of zero

---
 finite_volume/shallow_water/solver/antidiffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/antidiffusion.py b/finite_volume/shallow_water/solver/antidiffusion.py
index 85c15dd..37db589 100644
--- a/finite_volume/shallow_water/solver/antidiffusion.py
+++ b/finite_volume/shallow_water/solver/antidiffusion.py
@@ -18,7 +18,7 @@ class LinearAntidiffusiveSolver(swe.Solver):
         flux_getter=None,
         **kwargs
     ) -> Dict:
-        self._gamma = gamma or defaults.ANTIDIFFUSION_GAMMA
+        self._gamma = defaults.ANTIDIFFUSION_GAMMA if gamma is None else gamma
         self._get_raw_flux = flux_getter or LaxFriedrichsFluxGetter()
 
         return super()._get_solver_args(benchmark, **kwargs)
-- 
2.43.0


From 1cfa64abe77dc1959e8c9011122f63819394997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 35/47] fix: respect the seed zero when generating data

---
 command/generate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 12dc6a2..7ba8943 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -317,7 +317,7 @@ class GenerateData(Command):
         self._solver = solver
         self._solution_number = solution_number or defaults.SOLUTION_NUMBER
         self._get_benchmark = shallow_water.RandomBenchmarkGenerator(
-            seed=seed or defaults.SEED, end_time=end_time
+            seed=defaults.SEED if seed is None else seed, end_time=end_time
         )
         self._benchmark_df_builder = BenchparkParameterDataFrameBuilder()
         self._subgrid_flux_df_builder = self._get_subgrid_flux_data_frame_builder(
-- 
2.43.0


From 4bd8bc8fa32ab1a57999bb23c65bcce86521a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 36/47] fix: add the bottom source of reduced solvers over
 topography only once

---
 .../shallow_water/solver/reduced_model.py          | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index 9a31d53..658a7d3 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -208,19 +208,9 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
-        numerical_flux = self._flux_getter(benchmark, space)
-        numerical_flux = finite_volume.CorrectedNumericalFlux(
-            numerical_flux, self._subgrid_flux
-        )
+        numerical_flux = self._flux_getter(benchmark, space, bathymetry)
 
-        return swe.NumericalFlux(
-            numerical_flux,
-            benchmark.gravitational_acceleration,
-            bathymetry=bathymetry,
-        )
+        return finite_volume.CorrectedNumericalFlux(numerical_flux, self._subgrid_flux)
 
 
 class ReducedSolverParser(finite_volume.SolverParser):
-- 
2.43.0


From a9b0bb0a0c3469098c2798a14eb6d3c8a77bfc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 37/47] fix: mirror the second cell in the second ghost cell of
 a reflecting wall

---
 finite_volume/shallow_water/boundary.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/finite_volume/shallow_water/boundary.py b/finite_volume/shallow_water/boundary.py
index 5f0da20..6b953f7 100644
--- a/finite_volume/shallow_water/boundary.py
+++ b/finite_volume/shallow_water/boundary.py
@@ -4,16 +4,22 @@ import core
 
 
 class LeftReflectingCell(core.GhostCell):
+    def __init__(self, reference_index=0):
+        self._reference_index = reference_index
+
     def __call__(self, dof_vector: np.ndarray, time=None):
-        value = dof_vector[0].copy()
+        value = dof_vector[self._reference_index].copy()
         value[1] *= -1
 
         return value
 
 
 class RightReflectingCell(core.GhostCell):
+    def __init__(self, reference_index=-1):
+        self._reference_index = reference_index
+
     def __call__(self, dof_vector: np.ndarray, time=None):
-        value = dof_vector[-1].copy()
+        value = dof_vector[self._reference_index].copy()
         value[1] *= -1
 
         return value
@@ -38,7 +44,7 @@ class BoundaryConditionsBuilder(core.BoundaryConditionsBuilder):
         self, condition: str, index: int, inflow_left=None
     ) -> core.GhostCell:
         if condition == "wall":
-            return LeftReflectingCell()
+            return LeftReflectingCell(index)
         else:
             return super()._build_left_cell(condition, index, inflow_left=inflow_left)
 
@@ -46,7 +52,7 @@ class BoundaryConditionsBuilder(core.BoundaryConditionsBuilder):
         self, condition: str, index: int, inflow_right=None
     ) -> core.GhostCell:
         if condition == "wall":
-            return RightReflectingCell()
+            return RightReflectingCell(-index - 1)
         else:
             return super()._build_right_cell(
                 condition, index, inflow_right=inflow_right
-- 
2.43.0


From a6de5c62e224133d608e0d177f608094471d603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 38/47] fix: keep every curve in saved results if several have
 the same label

---
 command/plot.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/command/plot.py b/command/plot.py
index 2d0356c..6f80980 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -2,7 +2,7 @@ import argparse
 import os
 import pickle
 from abc import ABC, abstractmethod
-from typing import Any, Callable, Generic, List, Optional, TypeVar
+from typing import Any, Callable, Dict, Generic, List, Optional, TypeVar
 
 import core
 import defaults
@@ -91,6 +91,15 @@ class Plotter(ABC, Generic[T]):
     def _save_results(self):
         ...
 
+    def _get_unused_label(self, line, results: Dict) -> str:
+        """Solvers may have the same label, but none replaces another one."""
+        label, number = line.get_label(), 2
+
+        while label in results:
+            label, number = f"{line.get_label()} ({number})", number + 1
+
+        return label
+
     def _show_plots(self):
         plt.show() if self._show else plt.close("all")
 
@@ -142,7 +151,7 @@ class ScalarPlotter(Plotter[float]):
             results = dict()
 
             for line in self._axes.get_lines():
-                results[line.get_label()] = {
+                results[self._get_unused_label(line, results)] = {
                     "xdata": line.get_xdata(),
                     "ydata": line.get_ydata(),
                 }
@@ -275,7 +284,7 @@ class ShallowWaterPlotter(Plotter[np.ndarray]):
     def _save_result(self, axes: ..., path: str):
         results = dict()
         for line in axes.get_lines():
-            results[line.get_label()] = {
+            results[self._get_unused_label(line, results)] = {
                 "xdata": line.get_xdata(),
                 "ydata": line.get_ydata(),
             }
-- 
2.43.0


From a67d6e1f95e3709cc795b28c79ecfa3fb97db42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 39/47] fix: analyze-data, analyze-curvature and
 delete-curvature called missing functions

---
 command/analyze_curvature.py | 15 ++++++++++++--
 command/analyze_data.py      | 15 +++++++++++---
 core/__init__.py             |  1 +
 core/training_data.py        | 40 ++++++++++++++++++++++++++++++++++++
 4 files changed, 66 insertions(+), 5 deletions(-)
 create mode 100644 core/training_data.py

diff --git a/command/analyze_curvature.py b/command/analyze_curvature.py
index b7224c6..9ced331 100644
--- a/command/analyze_curvature.py
+++ b/command/analyze_curvature.py
@@ -1,4 +1,5 @@
 import argparse
+import os
 from typing import Any
 
 import core
@@ -46,6 +47,7 @@ def compare_2d_scatter_plots(
     axs[1].set_ylim(ylim[0], ylim[1])
 
     if save:
+        os.makedirs(os.path.dirname(save), exist_ok=True)
         fig.savefig(save)
 
 
@@ -124,12 +126,21 @@ class PlotCurvatureAgainstSubgridFlux(Command):
             )
         )
 
-        create_2d_scatter_plots(df_llf, df_es1, self._save)
+        other_figures = plt.get_fignums()
+        try:
+            create_2d_scatter_plots(df_llf, df_es1, self._save)
+        except BaseException:
+            self._close_figures(other_figures)
+            raise
 
         if self._show:
             plt.show()
         else:
-            plt.close()
+            self._close_figures(other_figures)
+
+    def _close_figures(self, other_figures):
+        for figure in set(plt.get_fignums()) - set(other_figures):
+            plt.close(figure)
 
 
 class AnalyzeCurvatureParser(CommandParser):
diff --git a/command/analyze_data.py b/command/analyze_data.py
index 372f111..2c31d45 100644
--- a/command/analyze_data.py
+++ b/command/analyze_data.py
@@ -16,6 +16,18 @@ class AnalyzeData(Command):
         self._histogram = histogram
 
     def execute(self):
+        other_figures = plt.get_fignums()
+        try:
+            self._analyze_data()
+        except BaseException:
+            for figure in set(plt.get_fignums()) - set(other_figures):
+                plt.close(figure)
+            raise
+
+        if self._histogram:
+            plt.show()
+
+    def _analyze_data(self):
         for data_path in self._data_paths:
             data = core.load_data(data_path)
             print(data_path.upper())
@@ -25,9 +37,6 @@ class AnalyzeData(Command):
             if self._histogram:
                 data.hist()
 
-        if self._histogram:
-            plt.show()
-
 
 class AnalazyDataParser(CommandParser):
     def _get_parser(self, parsers) -> Any:
diff --git a/core/__init__.py b/core/__init__.py
index ceb070b..f19c40a 100644
--- a/core/__init__.py
+++ b/core/__init__.py
@@ -13,5 +13,6 @@ from .solver import *
 from .space import *
 from .system import *
 from .time_stepping import *
+from .training_data import *
 from .type import *
 from .vector_coarsener import *
diff --git a/core/training_data.py b/core/training_data.py
new file mode 100644
index 0000000..feaff57
--- /dev/null
+++ b/core/training_data.py
@@ -0,0 +1,40 @@
+import io
+import os
+
+import pandas as pd
+
+
+def load_data(path: str) -> pd.DataFrame:
+    """Loads data saved by 'generate-data' or by 'save_data'.
+
+    The last line is ignored if its end is missing, i.e. if writing it was
+    interrupted.
+
+    """
+    with open(path) as file:
+        content = file.read()
+
+    size = content.rfind("\n") + 1
+    if size < len(content):
+        print(f"WARNING: The last line of '{path}' is incomplete and is ignored.")
+
+    return pd.read_csv(
+        io.StringIO(content[:size]),
+        header=[0, 1],
+        skipinitialspace=True,
+        index_col=0,
+        float_precision="round_trip",
+    )
+
+
+def save_data(data: pd.DataFrame, path: str):
+    """Saves DATA in PATH. An interrupted save leaves an existing file unchanged."""
+    temporary_path = f"{path}.tmp"
+
+    try:
+        data.to_csv(temporary_path)
+        os.replace(temporary_path, path)
+    except BaseException:
+        if os.path.isfile(temporary_path):
+            os.remove(temporary_path)
+        raise
-- 
2.43.0


From 3548bac604f7feea86c68c25d422ccd18c71f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 40/47] fix: a torn last line in the training data made the
 trained network predict NaN

---
 command/train_network.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/command/train_network.py b/command/train_network.py
index d6052f0..ad68d7f 100644
--- a/command/train_network.py
+++ b/command/train_network.py
@@ -6,7 +6,6 @@ import core
 import defaults
 import matplotlib.pyplot as plt
 import numpy as np
-import pandas as pd
 import torch
 from finite_volume.shallow_water.solver import NETWORK_TYPES, ReducedNetwork
 
@@ -48,9 +47,7 @@ class TrainNetwork(Command):
         if self._seed is not None:
             self._set_seed(self._seed)
 
-        df = pd.read_csv(
-            self._network.data_path, header=[0, 1], skipinitialspace=True, index_col=0
-        )
+        df = core.load_data(self._network.data_path)
         input_dimension = df.shape[1] - 2
         X = df.values[:: self._skip, :input_dimension].astype(np.float32)
         y = df.values[:: self._skip, input_dimension:].astype(np.float32)
-- 
2.43.0


From 7c0e94a49712b35768ac68caa202027f38869ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:39 +0000
Subject: [PATCH 41/47] fix: derive the constant time step of finite element
 solvers anew when they are reinitialised

---
 core/time_stepping.py    | 9 +++++++++
 finite_element/solver.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/core/time_stepping.py b/core/time_stepping.py
index 5aa025e..ec81d65 100644
--- a/core/time_stepping.py
+++ b/core/time_stepping.py
@@ -60,6 +60,7 @@ class TimeStepGenerator:
     ):
         self._adaptive = adaptive
         self._cfl_number = cfl_number
+        self._time_step_function = time_step_function
 
         if adaptive:
             self._get_time_step = lambda: time_step_function() * self._cfl_number
@@ -67,6 +68,11 @@ class TimeStepGenerator:
             self._time_step = time_step_function()
             self._get_time_step = lambda: self._time_step * self._cfl_number
 
+    def reinitialize(self):
+        """A constant time step belongs to the present solution."""
+        if not self._adaptive:
+            self._time_step = self._time_step_function()
+
     @property
     def adaptive(self) -> bool:
         return self._adaptive
@@ -108,6 +114,9 @@ class TimeStepping:
             optimal_time_step, cfl_number, adaptive
         )
 
+    def reinitialize(self):
+        self._time_step_generator.reinitialize()
+
     def __iter__(self):
         self._stop_iteration = False
         self.time = self._start_time
diff --git a/finite_element/solver.py b/finite_element/solver.py
index 5722cb4..f775b3a 100644
--- a/finite_element/solver.py
+++ b/finite_element/solver.py
@@ -12,6 +12,7 @@ class Solver(core.Solver):
         )
         self.solution.set_value(initial_data.value, initial_data.time)
         self._ode_solver.reinitialize(initial_data.value, initial_data.time)
+        self._time_stepping.reinitialize()
 
 
 class SolverParser(core.SolverParser):
-- 
2.43.0


From b8c13491a6b07790820918b9214a15e635724835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 42/47] fix: an interrupted plot left its figures open for the
 next one

---
 command/plot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/command/plot.py b/command/plot.py
index 6f80980..aa4ea2e 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -322,10 +322,14 @@ class Plot(Command):
             self._solver = solver
 
     def execute(self):
-        if self._solver is not None and not self._solver_executed:
-            self._calculate_solutions()
+        try:
+            if self._solver is not None and not self._solver_executed:
+                self._calculate_solutions()
 
-        self._add_plots()
+            self._add_plots()
+        except BaseException:
+            plt.close("all")
+            raise
 
         try:
             self._plotter.show()
-- 
2.43.0


From c21d2e5afb90cabc0528b14dfc200e3036d5951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 43/47] fix: animations ignored the start time 0.0

---
 command/animate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/animate.py b/command/animate.py
index 76b47d7..9dcd7b0 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -63,7 +63,9 @@ class Animator(ABC, Generic[T]):
             time_steps or defaults.TIME_STEPS,
         )
         self._save = save
-        self._start_time = start_time or self._benchmark.start_time
+        self._start_time = (
+            self._benchmark.start_time if start_time is None else start_time
+        )
         self._duration = duration or defaults.DURATION
         self._show = show
 
-- 
2.43.0


From 982ac6e0ad457c399da6fcaf68fb792d1e7f45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 44/47] fix: an interrupted animation left its figures open for
 the next one

---
 command/animate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 9dcd7b0..d6fb402 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -409,10 +409,14 @@ class Animate(Command):
             self._solver = solver or []
 
     def execute(self):
-        if not self._solver_executed:
-            self._calculate_solutions()
+        try:
+            if not self._solver_executed:
+                self._calculate_solutions()
 
-        self._add_animations()
+            self._add_animations()
+        except BaseException:
+            plt.close("all")
+            raise
 
         try:
             self._animator.show()
-- 
2.43.0


From 003c47a4a6bdae64bab536ab81909fd14ac50b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:36 +0000
Subject: [PATCH 45/47] fix: fit the axes of animations to the curves of all
 frames

---
 command/animate.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index d6fb402..d6826ac 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -230,6 +230,12 @@ class ScalarAnimator(Animator[float]):
             (line,) = self._axes.plot(spatial_grid, values[0], label=label[0])
             self._lines.append(line)
 
+        # the curves of all frames must be visible, not only those of the first one
+        for values in self._values_per_solver:
+            x = np.full(values.size, self._spatial_grid[0])
+            self._axes.update_datalim(np.column_stack([x, values.ravel()]))
+
+        self._axes.autoscale_view()
         self._axes.set_xlabel("x")
         self._axes.legend()
 
@@ -324,12 +330,12 @@ class ShallowWaterAnimator(Animator[np.ndarray]):
         additional_border_factor = 0.05
         values_min, values_max = self._get_min_max_values()
         v_min, v_max = self._get_min_max_velocities()
+        total_height_max = self._get_maximal_total_height()
 
         self._height_axes.set_xlabel("x")
         self._height_axes.set_ylabel("h+b")
         self._height_axes.set_ylim(
-            top=swe.get_height(values_max)
-            + additional_border_factor * swe.get_height(values_max)
+            top=total_height_max + additional_border_factor * abs(total_height_max)
         )
         self._height_axes.legend()
 
@@ -363,6 +369,12 @@ class ShallowWaterAnimator(Animator[np.ndarray]):
 
         return values_min, values_max
 
+    def _get_maximal_total_height(self) -> float:
+        return max(
+            np.max(self._get_total_height(grid, values[..., 0]))
+            for grid, values in zip(self._spatial_grids, self._values_per_solver)
+        )
+
     def _get_min_max_velocities(self) -> Tuple[float, float]:
         velocities_per_solver = [
             swe.get_velocities(*value) for value in self._values_per_solver
-- 
2.43.0


From 52ba153255d48f5305ff5ab0f04d7f09b869dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:36 +0000
Subject: [PATCH 46/47] fix: show negative heights and topography in plots

---
 command/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/command/plot.py b/command/plot.py
index aa4ea2e..4a12364 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -250,8 +250,12 @@ class ShallowWaterPlotter(Plotter[np.ndarray]):
         if not self._constant_bathymetry:
             self._add_bathymetry()
 
+        # topography and heights above it may be negative
+        y_min = min(0.0, self._height_axes.dataLim.y0)
         _, y_max = self._height_axes.get_ylim()
-        self._height_axes.set_ylim(bottom=0.0, top=1.05 * y_max, auto=True)
+        self._height_axes.set_ylim(
+            bottom=y_min, top=y_max + 0.05 * abs(y_max), auto=True
+        )
 
         for ax in [self._height_axes, self._discharge_axes, self._velocity_axes]:
             ax.legend(loc="center left", fontsize="x-large")
-- 
2.43.0


From 7d85ebf49b928061a9c788f5bd61fe5e5173f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 47/47] fix: warn instead of failing if no solver is given to
 eoc

---
 command/error.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/command/error.py b/command/error.py
index 2370889..8ff681f 100644
--- a/command/error.py
+++ b/command/error.py
@@ -285,7 +285,10 @@ class CalculateEOCParser(CalculateParser):
             f"Initial Mesh Size={arguments.mesh_size}, Refinements={arguments.refine} "
         )
         for solver_arguments in tqdm(
-            arguments.solver, desc="Calculate Solutions", unit="solver", leave=False
+            arguments.solver or [],
+            desc="Calculate Solutions",
+            unit="solver",
+            leave=False,
         ):
             solver_type = solver_arguments.solver
             del solver_arguments.solver
-- 
2.43.0

