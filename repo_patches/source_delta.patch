From 2d902dc69c22a53c7abd3f460cc0f3cd44a545c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 01/89] fix: continue the random streams on a reset without
 seed

---
 src/gym_electric_motor/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..6bd2672 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -306,7 +306,9 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        # Only a given seed restarts the random streams. Without a seed, they continue.
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From d43163dc45c42867724186758b0d61c623602383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 02/89] fix: keep the simulation data of an environment per
 instance

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 6bd2672..e0658b2 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -231,7 +231,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
-        self.sim.tau = physical_system.tau
+        self.sim = SimulationEnvironment(tau=physical_system.tau)
 
         # TODO physical_system etc should be initialized by the caller
         self._physical_system = physical_system(**kwargs) if isinstance(physical_system, type) else physical_system
-- 
2.43.0


From 57aa572560edc9b9938d1bc05e45a6f668ee5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 03/89] fix: let the product merge of constraint violations
 take the list of degrees it is given

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index e0658b2..7284bf5 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -816,7 +816,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From d0723c65c2b1f5038d82a2f0d6730c4dfe767a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 04/89] fix: do not drop constraints that are given as
 functions

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 7284bf5..daeb3db 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From e43e4dcaa575f111c03f99b56642886a3be27313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 05/89] fix: accept the documented 'all' as constraint on every
 state

---
 src/gym_electric_motor/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/constraints.py b/src/gym_electric_motor/constraints.py
index 8f66ba8..341873b 100644
--- a/src/gym_electric_motor/constraints.py
+++ b/src/gym_electric_motor/constraints.py
@@ -59,7 +59,7 @@ class LimitConstraint(Constraint):
 
     def set_modules(self, ps):
         self._limits = ps.limits
-        if "all_states" in self._observed_state_names:
+        if "all_states" in self._observed_state_names or "all" in self._observed_state_names:
             self._observed_state_names = ps.state_names
         if self._observed_state_names is None:
             self._observed_state_names = []
-- 
2.43.0


From 52b2c136fff2af714cc1638499c5a0047da67b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 06/89] fix: seed the random generators of the physical system
 wrappers

---
 .../physical_system_wrappers/physical_system_wrapper.py     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..053738c 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 import gym_electric_motor as gem
 
 from ..random_component import RandomComponent
@@ -107,6 +109,10 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        if seed is None:
+            seed = np.random.SeedSequence()
+        # The wrapper gets its own sub-seed, that its random stream is independent of the inner systems streams
+        RandomComponent.seed(self, seed.spawn(1)[0])
         if isinstance(self._physical_system, RandomComponent):
             self._physical_system.seed(seed)
 
-- 
2.43.0


From afaa9e7bfc0c02fb21063a033394be3b06b5d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 07/89] fix: support the documented 'all' in the
 StateNoiseProcessor

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..a6055b3 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -65,7 +65,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From 37d5266622928c28402e38e51c17e4c8812215aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 08/89] fix: remove the angle also from the state the
 CosSinProcessor returns at reset

---
 .../physical_system_wrappers/cos_sin_processor.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..4420554 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -52,6 +52,8 @@ class CosSinProcessor(PhysicalSystemWrapper):
     def reset(self):
         # Docstring of super class
         state = self._physical_system.reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From 38d6c4a3956cf62b564502fbafd9c8cfd1774cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 09/89] fix: use plain multi-discrete actions as default reset
 actions of the dead time

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..302a37f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -49,7 +49,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From 2a465e98eaef783bd1b68bd8adc8a62cbcda3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 10/89] fix: store a copy of the delayed action in the
 DeadTimeProcessor

---
 .../physical_system_wrappers/dead_time_processor.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 302a37f..52dcda8 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -1,4 +1,5 @@
 from collections import deque
+from copy import copy
 
 import gymnasium.spaces
 import numpy as np
@@ -81,5 +82,6 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             numpy.ndarray[float]: The next state of the system.
         """
         active_action = self._action_deque.pop()
-        self._action_deque.appendleft(action)
+        # Store a copy as the caller might reuse its action array before the action becomes active
+        self._action_deque.appendleft(copy(action))
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From e65d40b24b7e6839a0c15140851a9275e53c1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 11/89] fix: normalize the sum of currents with the limit of
 the sum

---
 .../physical_system_wrappers/current_sum_processor.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
index 7efc20d..f398118 100644
--- a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
@@ -60,6 +60,7 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
             state(numpy.ndarray[float]): The state of the inner system.
 
         Returns:
-            float: The summation of the currents of the state.
+            float: The (normalized) summation of the currents of the state.
         """
-        return np.sum(state[self._current_indices])
+        currents = state[self._current_indices] * self._physical_system.limits[self._current_indices]
+        return np.sum(currents) / self._limits[-1]
-- 
2.43.0


From 47d514602adcbef6595a3dca2322c36ad940b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 12/89] fix: reset the switching state of the finite two
 quadrant converter

---
 src/gym_electric_motor/physical_systems/converters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..23ab26f 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -267,6 +267,12 @@ class FiniteTwoQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(3)
 
+    def reset(self):
+        # Docstring in base class
+        self._switching_state = self._reset_action
+        self._switching_pattern = [self._reset_action]
+        return super().reset()
+
     def convert(self, i_out, t):
         # Docstring in base class
         # Converter switches slightly (tau / 1000 seconds) before interlocking time due to inaccuracy of the solvers.
-- 
2.43.0


From 736b0981d8c62511b6fe103123d7545655703cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 13/89] fix: pass the sampling time on to the half bridges of
 the 4QC and B6 converters

---
 .../physical_systems/converters.py            | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 23ab26f..bd35d89 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -339,6 +339,16 @@ class FiniteFourQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(4)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -466,6 +476,16 @@ class ContFourQuadrantConverter(ContDynamicallyAveragedConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Box(-1, 1, shape=(1,), dtype=np.float64)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -802,6 +822,16 @@ class FiniteB6BridgeConverter(FiniteConverter):
         [1, 1, 1],
     ]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._sub_converters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-5, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
@@ -874,6 +904,16 @@ class ContB6BridgeConverter(ContDynamicallyAveragedConverter):
 
     _reset_action = [0, 0, 0]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-4, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
-- 
2.43.0


From ff139e94f29b35a14b6c7bf010744cf54534b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 14/89] fix: end the interlocking interval after the
 interlocking time instead of after the whole step

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..ea253e7 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -177,7 +177,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
@@ -185,7 +185,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -496,7 +496,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -506,7 +506,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -627,7 +627,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
             self._ode_solver.set_f_params(u_dq_e)
@@ -638,7 +638,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+        u_in = self._converter.convert(i_in_abc_e, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -783,7 +783,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -793,7 +793,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -989,7 +989,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1008,7 +1008,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From c0a07aec93ce2c312330618ec19b875efa0d5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 15/89] fix: simulate the switching intervals of the externally
 excited synchronous motor

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index ea253e7..b78dd22 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -629,12 +629,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From ab47fb6e41e4203c19eeefb79543844137ad54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 16/89] fix: calculate the phase currents of synchronous motors
 with the angle of the same instant

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index b78dd22..fc4bfee 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -516,10 +516,10 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq, eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq, u_in, u_dq, [eps], u_sup))
         return system_state / self._limits
@@ -648,10 +648,10 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq_e, u_in[:3], u_dq_e, [eps], u_sup))
         return system_state / self._limits
-- 
2.43.0


From c3e1dbf93c90fea49ac7f6fa1e54068d2bbe7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 17/89] fix: calculate the dq currents of induction motors with
 the field angle of the same instant

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index fc4bfee..a922bd0 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -803,6 +803,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -1024,6 +1025,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
-- 
2.43.0


From 4473adbb0856fba4194f7490fe040fd895aebf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 18/89] fix: transform the initial rotor current of the doubly
 fed induction motor with the field angle

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index a922bd0..74f67b4 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -1090,7 +1090,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From b5fd98067ac7efbdbf47d8d1dff5f5d1b7e34837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 19/89] fix: give the rotor converter of the doubly fed
 induction motor the rotor-fixed currents

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 74f67b4..a79acae 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -984,7 +984,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+        i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1005,7 +1006,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+            i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From 1c02353f3506309aa90af0389b385caece2e0282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 20/89] fix: do not hand the reused derivative placeholder out
 to the solvers

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index a79acae..4dcda26 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        # The solvers keep references on the derivatives, therefore the placeholder itself must not be returned.
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From 09dadc5bccdb1204ce1d40ee172579cc55deb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 21/89] fix: evaluate the sub-steps of the euler solver at
 their own time

---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From 96cd8bef6dd72e4966bc50c14b6bf15d8badc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 22/89] fix: do not share the initial state of mechanical loads
 between instances

---
 .../physical_systems/mechanical_loads/mechanical_load.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..383d1e2 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import deepcopy
 
 import numpy as np
 from scipy.stats import truncnorm
@@ -93,8 +94,9 @@ class MechanicalLoad(RandomComponent):
         self._limits = {}
         self._nominal_values = {}
         load_initializer = load_initializer or {}
-        self._initializer = self._default_initializer.copy()
-        self._initializer.update(load_initializer)
+        # The initial states are changed per instance, therefore the given dictionaries have to be copied deeply.
+        self._initializer = deepcopy(self._default_initializer)
+        self._initializer.update(deepcopy(load_initializer))
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From f4c2e7e8044190c0b4ab49f112e8d6a60be93677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 23/89] fix: draw normally distributed initial states from the
 components random stream

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..62aa0fe 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 383d1e2..76999e1 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -150,7 +150,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 9c82dceb4d2fa4d618931cc7e142db027abf4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 24/89] fix: return the initial motor states in the order of
 the motor's ODE

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/electric_motors/induction_motor.py         | 2 +-
 .../physical_systems/electric_motors/synchronous_motor.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 62aa0fe..52cdf10 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,7 +280,7 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS])
         else:
             return np.zeros(len(self.CURRENTS))
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..b0b2ab9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -180,7 +180,7 @@ class InductionMotor(ThreePhaseMotor):
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..3aeb428 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -126,7 +126,7 @@ class SynchronousMotor(ThreePhaseMotor):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
-- 
2.43.0


From 8d2fddf211216a5eb6bc7073322be9d911070c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 25/89] fix: draw the random phase of AC supplies from a seeded
 random generator

---
 .../physical_systems/voltage_supplies.py      | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..5c93ea6 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -3,6 +3,7 @@ import warnings
 import numpy as np
 
 from gym_electric_motor.physical_systems.solvers import EulerSolver
+from gym_electric_motor.random_component import RandomComponent
 
 
 class VoltageSupply:
@@ -123,7 +124,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -134,6 +135,7 @@ class AC1PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -144,11 +146,10 @@ class AC1PhaseSupply(VoltageSupply):
                     0 <= supply_parameter["phase"] < 2 * np.pi
                 ), "The phase angle has to be given in rad in range [0,2*pi)"
                 self._fixed_phi = True
-                supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.uniform(0, 2 * np.pi))
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.uniform(0, 2 * np.pi)}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +157,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.uniform(0, 2 * np.pi)
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +168,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -179,6 +181,7 @@ class AC3PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -188,11 +191,10 @@ class AC3PhaseSupply(VoltageSupply):
                     0 <= supply_parameter["phase"] < 2 * np.pi
                 ), "The phase angle has to be given in rad in range [0,2*pi)"
                 self._fixed_phi = True
-                supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.uniform(0, 2 * np.pi))
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.uniform(0, 2 * np.pi)}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +203,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.uniform(0, 2 * np.pi)
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 427be769f2c6f490fbe167a3bdc7bf6bf373d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 26/89] fix: draw the initial flux angle of induction motors
 from the seeded random generator

---
 .../electric_motors/doubly_fed_induction_motor.py               | 2 +-
 .../electric_motors/squirrel_cage_induction_motor.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..7ca78ca 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -154,7 +154,7 @@ class DoublyFedInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = self.random_generator.uniform(-np.pi, np.pi)
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..b284c00 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -146,7 +146,7 @@ class SquirrelCageInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = self.random_generator.uniform(-np.pi, np.pi)
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
-- 
2.43.0


From 020bebeffffa610547438f96c1af1deb2d71d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 27/89] fix: do not extend the quantity lists of all induction
 motors with every doubly fed motor

---
 .../electric_motors/doubly_fed_induction_motor.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 7ca78ca..018b373 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,9 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        # Create new lists, because the class attributes are shared with all other induction motors
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
-- 
2.43.0


From fbe48b5989c8f4f36b96d32cde67c648e6011d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 28/89] fix: make the Ornstein-Uhlenbeck load usable and
 reproducible

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..61568a9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
-        self._omega_range = omega_range
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From f00918142b7a240083c2dc673bdc567a500b30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 29/89] fix: report the referenced state of constant references
 as a list of names

---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From d8635a74e407890faee0ad67d8826000f175e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 30/89] fix: resolve 'all' limit constraints for each physical
 system anew

---
 src/gym_electric_motor/constraints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/constraints.py b/src/gym_electric_motor/constraints.py
index 341873b..6f81edc 100644
--- a/src/gym_electric_motor/constraints.py
+++ b/src/gym_electric_motor/constraints.py
@@ -49,6 +49,7 @@ class LimitConstraint(Constraint):
                 - iterable(str): Pass an iterable containing all state names of the states to observe.
         """
         self._observed_state_names = observed_state_names
+        self._observe_all_states = False
         self._limits = None
         self._observed_states = None
 
@@ -59,10 +60,13 @@ class LimitConstraint(Constraint):
 
     def set_modules(self, ps):
         self._limits = ps.limits
-        if "all_states" in self._observed_state_names or "all" in self._observed_state_names:
-            self._observed_state_names = ps.state_names
         if self._observed_state_names is None:
             self._observed_state_names = []
+        # Remember the shortcut, because the names of all states differ between the physical systems
+        if "all_states" in self._observed_state_names or "all" in self._observed_state_names:
+            self._observe_all_states = True
+        if self._observe_all_states:
+            self._observed_state_names = ps.state_names
         self._observed_states = set_state_array(dict.fromkeys(self._observed_state_names, 1), ps.state_names).astype(
             bool
         )
-- 
2.43.0


From 3f80c83654c630bcd87519c6429f40e98623a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 31/89] fix: restrict the offsets of periodic references by the
 lower limit margin

---
 .../reference_generators/sawtooth_reference_generator.py        | 2 +-
 .../reference_generators/sinusoidal_reference_generator.py      | 2 +-
 .../reference_generators/triangle_reference_generator.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index 0a6856a..a7740d1 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -44,7 +44,7 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index 10afba4..ce309ca 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -47,7 +47,7 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 32fb3b3..98181d4 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -50,7 +50,7 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
-- 
2.43.0


From 1c4ae5e9750034bebb4b4a256cf0c3df0d00419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 32/89] fix: draw the initial value of a Wiener process from
 the generator of the new episode

---
 .../reference_generators/wiener_process_reference_generator.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..1fb93a9 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -42,6 +42,8 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
 
     def reset(self, initial_state=None, initial_reference=None):
         if initial_reference is None:
+            # The generator of the last episode must not be used for the initial value of the new episode
+            self.next_generator()
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
                 self._initial_range[0], self._initial_range[1], 1
-- 
2.43.0


From fd583abe98d9b484139e62119aff9dac86fe6f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 33/89] fix: ScipyOdeSolver restarts multistep integrators on
 new inputs and hands out copies

---
 src/gym_electric_motor/physical_systems/solvers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 88a863a..8883b73 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -1,3 +1,4 @@
+import numpy as np
 from scipy.integrate import ode, odeint, solve_ivp
 
 
@@ -171,17 +172,21 @@ class ScipyOdeSolver(OdeSolver):
 
     def set_initial_value(self, initial_value, t=0):
         # Docstring of superclass
-        self._ode.set_initial_value(initial_value, t)
+        # The integrators may work in place on the arrays they are given
+        self._ode.set_initial_value(np.array(initial_value), t)
 
     def set_f_params(self, *args):
         # Docstring of superclass
         super().set_f_params(*args)
         self._ode.set_f_params(*args)
         self._ode.set_jac_params(*args)
+        # Multistep integrators look ahead. They have to be restarted, when the inputs change.
+        if self._integrator in ("vode", "zvode", "lsoda") and len(self._ode.y) > 0:
+            self._ode.set_initial_value(self._ode.y, self._ode.t)
 
     def integrate(self, t):
         # Docstring of superclass
-        return self._ode.integrate(t)
+        return np.array(self._ode.integrate(t))
 
 
 class ScipySolveIvpSolver(OdeSolver):
-- 
2.43.0


From 97032c64bc5384bf7bd8b3981a2726f41b059c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 34/89] fix: ScipyOdeSolver integrates from states near zero
 instead of standing still

---
 src/gym_electric_motor/physical_systems/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 8883b73..1459137 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -186,7 +186,15 @@ class ScipyOdeSolver(OdeSolver):
 
     def integrate(self, t):
         # Docstring of superclass
-        return np.array(self._ode.integrate(t))
+        y_0, t_0 = self._ode.y, self._ode.t
+        y = self._ode.integrate(t)
+        if self._integrator in ("dopri5", "dop853") and not self._ode.successful():
+            # The initial step size, that these integrators estimate, is too small for states near zero.
+            self._ode.set_integrator(self._integrator, **{"first_step": 0.01 * (t - t_0), **self._solver_args})
+            self._ode.set_initial_value(y_0, t_0)
+            y = self._ode.integrate(t)
+            self._ode.set_integrator(self._integrator, **self._solver_args)
+        return np.array(y)
 
 
 class ScipySolveIvpSolver(OdeSolver):
-- 
2.43.0


From 776b54510abccb51a1cc7182cc7b78a9bef61c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 35/89] fix: bound the initial flux of induction motors by the
 configured currents, not by those of the last episode

---
 .../physical_systems/electric_motors/induction_motor.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index b0b2ab9..0343262 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -178,6 +178,9 @@ class InductionMotor(ThreePhaseMotor):
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
+            # The limits of the initial flux are those for the configured currents, not for those of the last episode
+            self._initial_states.update(self._default_initializer["states"])
+            self._initial_states.update(self._initializer["states"])
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
             return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
-- 
2.43.0


From 4beb6d1a1b8be2bad14b1e4f01e4dd55f1c6a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 36/89] fix: draw normally distributed initial states also on
 intervals without width

---
 .../electric_motors/electric_motor.py              | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 52cdf10..ae9688b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -240,13 +240,17 @@ class ElectricMotor(RandomComponent):
                 # specific input or middle of interval
                 mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
+                mue = np.broadcast_to(mue, lower_bound.shape)
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
-                initial_value = truncnorm.rvs(
-                    a,
-                    b,
-                    loc=mue,
+                # truncnorm is not defined on intervals without width (e.g. if no flux is possible)
+                width = upper_bound > lower_bound
+                initial_value = lower_bound.copy()
+                initial_value[width] = truncnorm.rvs(
+                    a[width],
+                    b[width],
+                    loc=mue[width],
                     scale=sigma,
-                    size=(len(self._initial_states.keys())),
+                    size=int(np.sum(width)),
                     random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
-- 
2.43.0


From 630199120ab798ec615477df060af12fbfaa40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 37/89] fix: default nominal values never exceed the limits
 given for motor or load

---
 .../physical_systems/electric_motors/electric_motor.py      | 6 +++++-
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index ae9688b..685def1 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -130,6 +130,10 @@ class ElectricMotor(RandomComponent):
         self._limits = update_parameter_dict(self._default_limits, limit_values)
         nominal_values = nominal_values or {}
         self._nominal_values = update_parameter_dict(self._default_nominal_values, nominal_values)
+        # Default nominal values must not exceed the given limits
+        for qty, limit in limit_values.items():
+            if qty not in nominal_values and 0 < limit < self._nominal_values.get(qty, 0):
+                self._nominal_values[qty] = limit
         motor_initializer = motor_initializer or {}
         self._initializer = update_parameter_dict(self._default_initializer, motor_initializer)
         self._initial_states = {}
@@ -317,7 +321,7 @@ class ElectricMotor(RandomComponent):
 
         for entry in self._limits.keys():
             if self._nominal_values.get(entry, 0) == 0:
-                self._nominal_values[entry] = nominal_d.get(entry, self._limits[entry])
+                self._nominal_values[entry] = min(nominal_d.get(entry, self._limits[entry]), self._limits[entry])
 
     def _update_initial_limits(self, nominal_new=None):
         """Complete initial states with further state limits
diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 4dcda26..f765408 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -119,7 +119,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for ind, state in enumerate(self._state_names):
             motor_nom = self._electrical_motor.nominal_values.get(state, np.inf)
             mechanical_nom = self._mechanical_load.nominal_values.get(state, np.inf)
-            self._nominal_state[ind] = min(motor_nom, mechanical_nom)
+            # A limit of the load may lie below the nominal value of the motor
+            self._nominal_state[ind] = min(motor_nom, mechanical_nom, self._limits[ind])
         self._nominal_state[self._state_positions["u_sup"]] = self.supply.u_nominal
 
     def _build_state_space(self, state_names):
-- 
2.43.0


From fece9c8cc9739e8046e529fd9691e1fecbe6493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 38/89] fix: positive torque limits of PMSM with l_d > l_q and
 SynRM with l_d < l_q

---
 .../electric_motors/permanent_magnet_synchronous_motor.py    | 5 ++++-
 .../electric_motors/synchronous_reluctance_motor.py          | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index c2e098f..1558d48 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -127,7 +127,10 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             i_n = self.nominal_values["i"]
             _p = mp["psi_p"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = -(i_n**2) / 2
-            i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            if mp["l_d"] < mp["l_q"]:
+                i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            else:
+                i_d_opt = -_p / 2 + np.sqrt((_p / 2) ** 2 - _q)
             i_q_opt = np.sqrt(i_n**2 - i_d_opt**2)
             return self.torque([i_d_opt, i_q_opt, 0])
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index 603b953..b2a8b91 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -131,7 +131,7 @@ class SynchronousReluctanceMotor(SynchronousMotor):
 
     def _torque_limit(self):
         # Docstring of superclass
-        return self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0])
+        return abs(self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0]))
 
     def torque(self, currents):
         # Docstring of superclass
-- 
2.43.0


From 4f65011a13762b0bbeda7548fc2c465d9ef9f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 39/89] fix: the state space of three-phase systems contains
 the supply voltage of AC supplies

---
 .../physical_systems/physical_systems.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index f765408..121ce23 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -439,8 +439,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -569,8 +570,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -714,8 +716,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -885,8 +888,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
-- 
2.43.0


From 8c7c4b3650422c21572ce3fa6b0a95666f929ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 40/89] fix: accept the documented limits and nominal values of
 specific three-phase quantities

---
 .../physical_systems/electric_motors/electric_motor.py   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 685def1..ef77a97 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -42,6 +42,9 @@ class ElectricMotor(RandomComponent):
     CURRENTS = []
     #: VOLTAGES(list(str)): List of the motor input voltages names
     VOLTAGES = []
+    #: IO_VOLTAGES, IO_CURRENTS(list(str)): Voltages and currents in all reference frames (three-phase motors)
+    IO_VOLTAGES = []
+    IO_CURRENTS = []
 
     #: _default_motor_parameter(dict): Default parameter dictionary for the motor
     _default_motor_parameter = {}
@@ -126,10 +129,12 @@ class ElectricMotor(RandomComponent):
         motor_parameter = motor_parameter or {}
         self._motor_parameter = self._default_motor_parameter.copy()
         self._motor_parameter = update_parameter_dict(self._default_motor_parameter, motor_parameter)
+        # Specific quantities (e.g. i_sd) are inferred from the general ones later, if they are not given (0).
+        specific = dict.fromkeys(list(self.IO_VOLTAGES) + list(self.IO_CURRENTS), 0.0)
         limit_values = limit_values or {}
-        self._limits = update_parameter_dict(self._default_limits, limit_values)
+        self._limits = update_parameter_dict({**specific, **self._default_limits}, limit_values)
         nominal_values = nominal_values or {}
-        self._nominal_values = update_parameter_dict(self._default_nominal_values, nominal_values)
+        self._nominal_values = update_parameter_dict({**specific, **self._default_nominal_values}, nominal_values)
         # Default nominal values must not exceed the given limits
         for qty, limit in limit_values.items():
             if qty not in nominal_values and 0 < limit < self._nominal_values.get(qty, 0):
-- 
2.43.0


From 10b7ee7f11718060951b56bd260409e349070c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 41/89] fix: torque limit of DC motors with an open current
 limit uses the derived current limit

---
 .../physical_systems/electric_motors/dc_motor.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
index 874f0e4..b1b2a2e 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
@@ -156,5 +156,6 @@ class DcMotor(ElectricMotor):
             limits_d = dict()
 
         # torque is replaced the same way for all DC motors
-        limits_d.update(dict(torque=self.torque([self._limits[state] for state in self.CURRENTS])))
+        current_limits = [self._limits[state] or limits_d.get(state, 0.0) for state in self.CURRENTS]
+        limits_d.update(dict(torque=self.torque(current_limits)))
         super()._update_limits(limits_d)
-- 
2.43.0


From 1f0115e23412f46470b0d327faefb105fc8362f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 42/89] fix: the DFIM dq action processor accepts its physical
 system in the constructor

---
 .../physical_system_wrappers/dq_to_abc_action_processor.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
index f6ef88a..b26495a 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
@@ -120,9 +120,9 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
         return gymnasium.spaces.Box(-1, 1, shape=(4,))
 
     def __init__(self, physical_system=None):
-        super().__init__('epsilon', physical_system=physical_system)
         self._flux_angle_name = 'psi_abs'
         self._flux_angle_index = None
+        super().__init__('epsilon', physical_system=physical_system)
 
     def simulate(self, action):
         """Dq to abc space transformation function for doubly fed induction motor environments.
-- 
2.43.0


From a2b72a204ffb100e3cb1dc394e98fe018c681d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 43/89] fix: the step reference shifts its waveform by the
 phase instead of rotating the sub-episode

---
 .../reference_generators/step_reference_generator.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/step_reference_generator.py b/src/gym_electric_motor/reference_generators/step_reference_generator.py
index 4ebfd3d..4b1efd7 100644
--- a/src/gym_electric_motor/reference_generators/step_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/step_reference_generator.py
@@ -50,11 +50,11 @@ class StepReferenceGenerator(SubepisodedReferenceGenerator):
             (self._current_episode_length - 1) * self._physical_system.tau,
             self._current_episode_length,
         )
+        phase = self.random_generator.uniform()
+        steps_per_period = 1 / self._frequency / self._physical_system.tau
+        t -= int(steps_per_period * phase) * self._physical_system.tau
         x = self._frequency * (t % (1 / self._frequency))
         x -= high_low_ratio
         x = np.sign(x)
-        phase = self.random_generator.uniform()
-        steps_per_period = 1 / self._frequency / self._physical_system.tau
-        x = np.roll(x, int(steps_per_period * phase))
         self._reference = self._amplitude * x + self._offset
         self._reference = np.clip(self._reference, self._limit_margin[0], self._limit_margin[1])
-- 
2.43.0


From f416fcbc923b0da437dcb2a5a7bc12fe1ee0723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 44/89] fix: three-point and P controllers can be tuned in
 every control task (C25)

---
 src/gem_controllers/parameter_reader.py                     | 6 ++++--
 src/gem_controllers/pi_current_controller.py                | 2 +-
 src/gem_controllers/stages/base_controllers/p_controller.py | 5 +++--
 .../stages/base_controllers/three_point_controller.py       | 5 +++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..9bfca39 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..5a021cf 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -135,7 +135,7 @@ class PICurrentController(gc.CurrentController):
         if self._coordinate_transformation_required:
             self._transformation_stage.tune(env, env_id)
         self._emf_feedforward.tune(env, env_id)
-        self._current_base_controller.tune(env, env_id, a)
+        self._current_base_controller.tune(env, env_id, a=a)
         self._anti_windup_stage.tune(env, env_id)
         self._clipping_stage.tune(env, env_id)
         self._voltage_reference = np.zeros(
diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..b76b334 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -88,12 +88,13 @@ class PController(BaseController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
             a(float): Design parameter of the symmetrical optimum.
+            t_n(float): Time constant of the underlying controller stage.
         """
 
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..01f5638 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -146,9 +146,10 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        speed_index = [env.state_names.index("omega")]
+        torque_index = [env.state_names.index("torque")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        self.referenced_state_indices = speed_index
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
-- 
2.43.0


From ad09ac378b4874adcac9ea3771ecc119935f5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 45/89] fix: PID controller forgets its last error on reset and
 passes the time constant to its speed tuning (C25)

---
 .../stages/base_controllers/pid_controller.py              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..4cabde3 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -42,6 +42,11 @@ class PIDController(PIController):
         self._last_error = current_error
         return pi_action + d_action
 
+    def reset(self):
+        """Reset the integrated values and the last error"""
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_current_controller(self, env, env_id, a=4):
         """Set the gains of the P-, I- and D-component for the current control.
 
@@ -64,5 +69,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
-- 
2.43.0


From 9450725b490dcd48c29ffb000e7e61adfe468614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 46/89] fix: squared and combined clipping scale to the length
 of the vector and apply the margin once (C25)

---
 .../stages/clipping_stages/combined_clipping_stage.py    | 9 +++++----
 .../stages/clipping_stages/squared_clipping_stage.py     | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..618a016 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,12 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
-        relative_maximum = 1 - self._margin
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
-            else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
+            if relative_reference_length <= 1.0
+            else reference[self._squared_clipped_states] / relative_reference_length
         )
 
         clipped[self._absolute_clipped_states] = np.clip(
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..7e23201 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -26,7 +26,8 @@ class SquaredClippingStage(ClippingStage):
     @property
     def action_range(self):
         """Action range of the controller stage"""
-        return []
+        limits = self._limits * (1 - self._margin)
+        return -limits, limits
 
     def __init__(self, control_task="CC"):
         """
@@ -51,11 +52,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
@@ -81,6 +82,7 @@ class SquaredClippingStage(ClippingStage):
             state_names = ["torque"]
         state_indices = [env.state_names.index(state_name) for state_name in state_names]
         self._limits = env.limits[state_indices]
+        self._margin = margin
 
     def reset(self):
         """Reset the squared clipping stage"""
-- 
2.43.0


From 035a5ff91507737d6ea3abcfd26ea8a7752703e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 47/89] fix: combined clipping stage reports the action range
 of all its components, IController integrates the controlled states (C25)

---
 src/gem_controllers/stages/base_controllers/i_controller.py | 2 +-
 .../stages/clipping_stages/combined_clipping_stage.py       | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/i_controller.py b/src/gem_controllers/stages/base_controllers/i_controller.py
index c0d1cc1..0237d4f 100644
--- a/src/gem_controllers/stages/base_controllers/i_controller.py
+++ b/src/gem_controllers/stages/base_controllers/i_controller.py
@@ -111,7 +111,7 @@ class IController(BaseController):
              reference(np.ndarray): The reference of the state.
         """
 
-        error = reference - state
+        error = reference - state[self._state_indices]
         self._integrator = self._integrator + (error * self._tau * ~self._clipped)
 
     def reset(self):
diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 618a016..f46a08b 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -20,8 +20,10 @@ class CombinedClippingStage(ClippingStage):
         """Action range of the controller stage"""
         action_range_low = np.zeros(len(self._squared_clipped_states) + len(self._absolute_clipped_states))
         action_range_high = np.zeros(len(self._squared_clipped_states) + len(self._absolute_clipped_states))
-        action_range_low[-1] = self._action_range_absolute[0][0]
-        action_range_high[-1] = self._action_range_absolute[1][0]
+        action_range_low[self._squared_clipped_states] = -self._limit_squred_clipping
+        action_range_high[self._squared_clipped_states] = self._limit_squred_clipping
+        action_range_low[self._absolute_clipped_states] = self._action_range_absolute[0]
+        action_range_high[self._absolute_clipped_states] = self._action_range_absolute[1]
         return action_range_low, action_range_high
 
     def __init__(self, control_task="CC"):
-- 
2.43.0


From 53ba71cf1490bfc8ca0f738c939f866ffbf81ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 48/89] fix: speed controller resets its clipping stage (C25)

---
 src/gem_controllers/pi_speed_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/pi_speed_controller.py b/src/gem_controllers/pi_speed_controller.py
index e0115fa..979a079 100644
--- a/src/gem_controllers/pi_speed_controller.py
+++ b/src/gem_controllers/pi_speed_controller.py
@@ -148,3 +148,4 @@ class PISpeedController(gc.GemController):
         """Reset all components of the speed control stage and the underlying control stages"""
         self._torque_controller.reset()
         self._speed_control_stage.reset()
+        self._clipping_stage.reset()
-- 
2.43.0


From 79cea643282167190c1460a1e19d31bcd8fa3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 49/89] fix: permanently excited DC operating point selection
 knows the resistance of the machine (C29)

---
 .../stages/operation_point_selection/permex_dc_ops.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..58b6c9e 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -85,6 +85,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         super().tune(env, env_id, current_safety_margin=current_safety_margin)
         motor = gc.utils.get_motor_type(env_id)
         self._magnetic_flux = reader.psi_reader[motor](env)
+        self._resistance = reader.r_reader[motor](env)
         voltages = reader.voltages[motor]
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
-- 
2.43.0


From 8ba4fdf678ed877e8a996ef6c1ac47ab40715b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 50/89] fix: EESM and PMSM look-up tables without the removed
 alias np.complex (C26)

---
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..5217547 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..ac7970a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From db9de1563044cc8a0f83e29bc78b1d72fd4b7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 51/89] fix: every SCIM operating point selection has its own
 flux controller (C26)

---
 .../stages/operation_point_selection/scim_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..58c8df1 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,13 +19,13 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
             max_modulation_level(float): Maximum value for the modulation controller.
             modulation_damping(float): Damping of the gain of the modulation controller.
-            psi_controller(gc.stages.BaseController): Flux controller for the i_d current.
+            psi_controller(gc.stages.BaseController): Flux controller for the i_d current (Default: PI controller).
         """
 
         super().__init__(max_modulation_level, modulation_damping)
@@ -40,7 +40,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        self.psi_controller = psi_controller if psi_controller is not None else PIController(control_task="FC")
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From 7adf04a1d83145b4ddb130da05d08bdbaab93517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 52/89] fix: first episode of control_environment is as long as
 every other one (C26)

---
 src/gem_controllers/gem_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..53f4cfb 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -163,11 +163,11 @@ class GemController:
                 env.render()  # Plot the states
             action = self.control(state, reference)  # Calculate the action
             (state, reference), _, trun, done, _ = env.step(action)  # Simulate one step of the environment
+            current_episode_length = current_episode_length + 1
             if done or trun or current_episode_length >= max_episode_length:
                 # Reset the environment and controller
                 (state, reference), _ = env.reset()
                 self.reset()
                 current_episode_length = 0
-            current_episode_length = current_episode_length + 1
         if self.block_diagram:
             self.block_diagram.close()
-- 
2.43.0


From c0030c13cf135aeea94776016d426b50f57942e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 53/89] fix: a controller is ready for its first control cycle
 without an explicit reset (C26)

---
 src/gem_controllers/gem_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 53f4cfb..b8f4ec1 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -92,6 +92,7 @@ class GemController:
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
+        controller.reset()
 
         if block_diagram:
             controller.build_block_diagram(env_id, save_block_diagram_as)
-- 
2.43.0


From 7963b75afd6ae72476014f2c7e45dd44a4501863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 54/89] fix: should_plot belongs to the controller it was
 passed to (C26)

---
 src/gem_controllers/gem_controller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index b8f4ec1..223f56d 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -15,6 +15,9 @@ class GemController:
     controller to control a gym-electric-motor environment.
     """
 
+    # (bool): Flag, if the references of the subordinate stages are plotted
+    should_plot = False
+
     @property
     def signals(self):
         """Input signals of the controller"""
@@ -61,8 +64,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
-
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
@@ -89,6 +90,7 @@ class GemController:
             )
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
+        controller.should_plot = should_plot
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
-- 
2.43.0


From adf541893be0b74ee06492ceb3f2f5cc5d5bf1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 55/89] fix: angle advance of the abc transformation follows
 the sampling time and the electrical speed (C26)

---
 src/gem_controllers/stages/abc_transformation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..ffc9730 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -34,6 +34,7 @@ class AbcTransformation(Stage):
     def __init__(self):
         super().__init__()
         self._tau = 1e-4
+        self._p = 1
         self._advance_factor = 0.5
         self.omega_idx = None
         self.angle_idx = None
@@ -57,8 +58,8 @@ class AbcTransformation(Stage):
         return output
 
     def _angle_advance(self, state):
-        """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        """Multiply the advance factor with the electrical speed and the sampling time to calculate the advance angle"""
+        return state[self.angle_idx] + self._advance_factor * self.tau * self._p * state[self.omega_idx]
 
     def tune(self, env, env_id, **_):
         """
@@ -73,6 +74,8 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
+        self.tau = env.physical_system.tau
+        self._p = reader.p_reader[gc.utils.get_motor_type(env_id)](env)
         if hasattr(env.physical_system.converter, "dead_time"):
             self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
         else:
-- 
2.43.0


From b335e693a83e8d5f75eea34bd706a2daea16a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 56/89] fix: EMF feedforward of ExtEx and PermEx DC motors and
 induction machines uses the electrical speed (C26)

---
 src/gem_controllers/parameter_reader.py           | 4 ++--
 src/gem_controllers/stages/emf_feedforward_ind.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 9bfca39..3b9f5dd 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..f822b51 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega_s = self.omega_el(state) + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +38,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), self.omega_el(state) * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From 2f64532fbfa46e7cde8d1df6688f6986fb8a0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:17 +0000
Subject: [PATCH 57/89] fix: current controller hands on the clipped voltages,
 actions stay inside of the action space (C26)

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index 5a021cf..13acb7b 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From 279b9367c19bd4827411fb3469359b5f65e4558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 58/89] fix: mean episode reward plot survives episodes without
 steps (C27)

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ac6c471..1592152 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -33,7 +33,8 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reward_range = [np.inf, -np.inf]
 
     def _set_y_data(self):
-        mean_reward = self._reward_sum / self._episode_length
+        # An episode without any step has got no mean reward
+        mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
         if self._reward_range[0] > mean_reward:
             self._reward_range[0] = mean_reward
-- 
2.43.0


From 2deb626ed82ea35af14e12fa4d83ae3c88b02328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 59/89] fix: mean episode reward plot keeps the episodes that
 ended before the first rendering (C27)

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index 1592152..982cc14 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -18,8 +18,7 @@ class MeanEpisodeRewardPlot(EpisodePlot):
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._reward_data = []
-        self._y_data.append(self._reward_data)
+        self._y_data = [self._reward_data]
         self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
 
     def on_step_end(self, k, state, reference, reward, terminated):
-- 
2.43.0


From 031ebd5528698e6e561318ec21704bb8a4d49b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 60/89] fix: episode plots do not carry an unrecorded episode
 over into the next one (C27)

---
 .../motor_dashboard_plots/episode_length_plot.py             | 4 ++++
 .../motor_dashboard_plots/mean_episode_reward_plot.py        | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index a2ed136..b27ad32 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -21,6 +21,10 @@ class EpisodeLengthPlot(EpisodePlot):
         super().initialize(axis)
         self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         self._episode_length = k
 
diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index 982cc14..a859927 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -21,6 +21,11 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._y_data = [self._reward_data]
         self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._reward_sum = 0
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
         self._reward_sum += reward
-- 
2.43.0


From c318a3496f7459e0aae4b9135982b8a6e2470efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 61/89] fix: cumulative constraint violation plot restarts
 consistently when its data is reset (C27)

---
 .../cumulative_constraint_violation_plot.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 4a4a930..124c4a0 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -18,7 +18,9 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def reset_data(self):
         super().reset_data()
+        self._no_of_violations = 0
         self._violations = [0]
+        self._x_data.append(0)
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
-- 
2.43.0


From 9be552dd3346b2c68b373cb3ebf264303b6ab7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 62/89] fix: reward plot shows data again after the figures
 have been reset (C27)

---
 .../visualization/motor_dashboard_plots/reward_plot.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
index 9bf3601..f274f6a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
@@ -33,6 +33,7 @@ class RewardPlot(TimePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
+        self._y_data = [self._reward_data]
 
     def on_step_end(self, k, state, reference, reward, terminated):
         idx = self.data_idx
-- 
2.43.0


From 0f77f2ad7da1f43b28dcf4bbf56ccf14a7e330ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 63/89] fix: plots with a single line can be scaled to their
 data (C27)

---
 .../visualization/motor_dashboard_plots/base_plots.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index e203618..73ff647 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -188,10 +188,11 @@ class TimePlot(MotorDashboardPlot):
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
             # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
-            if np.isnan(self._y_data[0]).all() or np.isnan(self._y_data[1]).all():
+            y_data = [data for data in self._y_data if not np.isnan(data).all()]
+            if len(y_data) == 0:
                 return
-            y_min = min(np.nanmin(self._y_data[0]), np.nanmin(self._y_data[1]))
-            y_max = max(np.nanmax(self._y_data[0]), np.nanmax(self._y_data[1]))
+            y_min = min(np.nanmin(data) for data in y_data)
+            y_max = max(np.nanmax(data) for data in y_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
-- 
2.43.0


From b1bdf9ff06dc3a297395df9d6ea3625ea8a4a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 64/89] fix: mean episode reward plot can be set up after the
 first episodes have ended (C27)

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index a859927..c484524 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -19,7 +19,7 @@ class MeanEpisodeRewardPlot(EpisodePlot):
     def initialize(self, axis):
         super().initialize(axis)
         self._y_data = [self._reward_data]
-        self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
+        self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
     def on_reset_begin(self):
         super().on_reset_begin()
-- 
2.43.0


From 740ac912156107a433ed1e0671e086d45b1b6fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 65/89] fix: mean episode reward plot can be rendered before
 any episode had a step (C27)

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index c484524..f5a3ab1 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -49,6 +49,10 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reset = True
 
     def _scale_y_axis(self):
-        if len(self._reward_data) > 1 and self._axis.get_ylim() != tuple(self._reward_range):
+        if (
+            len(self._reward_data) > 1
+            and np.isfinite(self._reward_range).all()
+            and self._axis.get_ylim() != tuple(self._reward_range)
+        ):
             spacing = 0.1 * (self._reward_range[1] - self._reward_range[0])
             self._axis.set_ylim(self._reward_range[0] - spacing, self._reward_range[1] + spacing)
-- 
2.43.0


From 1c591036f3476fdd0959e033e04bc203415d311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:42 +0000
Subject: [PATCH 66/89] fix: every physical system has its own action space,
 environments no longer share its random stream

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 121ce23..0b6e675 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import deepcopy
 
 import numpy as np
 from gymnasium.spaces import Box
@@ -84,7 +85,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         self._t = 0
         self._set_indices()
         state_space = self._build_state_space(state_names)
-        super().__init__(self._converter.action_space, state_space, state_names, tau)
+        # The action spaces of the converters are class attributes. A copy keeps the random streams of the systems apart.
+        super().__init__(deepcopy(self._converter.action_space), state_space, state_names, tau)
         self._limits = np.zeros_like(state_names, dtype=float)
         self._nominal_state = np.zeros_like(state_names, dtype=float)
         self._set_limits()
-- 
2.43.0


From d09492a56300f93f9c36718657f85b635073f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:46 +0000
Subject: [PATCH 67/89] fix: a mean of zero given for normally distributed
 initial states is used

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index ef77a97..157f343 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0] if random_params[0] is not None else (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 mue = np.broadcast_to(mue, lower_bound.shape)
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 76999e1..4046b11 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -140,7 +140,7 @@ class MechanicalLoad(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0] if random_params[0] is not None else (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a = (lower_bound - mue) / sigma
                 b = (upper_bound - mue) / sigma
-- 
2.43.0


From da3f0f85a8c781d25ac2418c9b6e2dbf4869454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:44 +0000
Subject: [PATCH 68/89] fix: torque requests beyond the look-up table of
 synchronous machines use its last entry (C30)

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index ac7970a..238f442 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -309,7 +309,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
         return np.clip(
-            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count
+            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count - 1
         )
 
     def _select_operating_point(self, state, reference):
-- 
2.43.0


From b4af49ebbdeaba41e910044bea28abbc0579507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:52 +0000
Subject: [PATCH 69/89] fix: index of the maximum torque per flux table follows
 its length (C30)

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 238f442..580ec47 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -302,9 +302,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        # the table ends at the current limit and may contain less than psi_count flux values
+        psi_count = len(self.mtpf) // 2
+        return np.clip(int((psi_count - 1) - round(psi / self.psi_max_mtpf * (psi_count - 1))), 0, psi_count - 1)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
-- 
2.43.0


From a67feed44d8433f1b8c3dd8ef62947c22143c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:00 +0000
Subject: [PATCH 70/89] fix: torque of the current references of reluctance
 machines has the sign of the request (C30)

---
 .../stages/operation_point_selection/pmsm_ops.py      | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 580ec47..e77fc3a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -78,8 +78,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
-                i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
+                i_q_ret = np.sign((self.psi_p + (self.l_d - self.l_q) * i_d_ret) * t) * np.abs(i_q[min_idx])
 
             # The flow is finally calculated from the currents
             psi = np.sqrt((self.psi_p + self.l_d * i_d_ret) ** 2 + (self.l_q * i_q_ret) ** 2)
@@ -348,22 +348,19 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             if self.i_d_inter[t_idx, psi_idx] <= self.mtpf[psi_max_idx, 2]:
                 i_d = self.mtpf[psi_max_idx, 2]
-                i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
+                i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
                 reference = np.sign(reference[0]) * t_max
             else:
                 i_d = self.i_d_inter[t_idx, psi_idx]
                 i_q = self.i_q_inter[t_idx, psi_idx]
                 if i_d > self.mtpc[psi_idx_, 1]:
                     i_d = self.mtpc[psi_idx_, 1]
-                    i_q = np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
+                    i_q = self.mtpc[psi_idx_, 2]
 
         # ensure that the mtpf characteristic curve is observed
         if i_d < self.mtpf[psi_max_idx, 2]:
             i_d = self.mtpf[psi_max_idx, 2]
-            i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
-
-        # invert the i_q if necessary
-        i_q = self.invert * i_q
+            i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From eb43fe7b215da2dd21bed233013c9ceab3460c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 71/89] fix: current references of synchronous machines fulfil
 the flux equation (C30)

---
 .../stages/operation_point_selection/pmsm_ops.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index e77fc3a..14bad16 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -272,14 +272,22 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         sol = np.roots(poly)  # Solve the equation
-        i_d = np.real(sol[-1])  # Select the correct solution for the i_sd current
-        i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
-        return i_d, i_q
+        i_d = np.real(sol)
+        if self.psi_p == 0:
+            i_d = -np.abs(i_d)
+        i_q = np.zeros_like(i_d)
+        if torque != 0:
+            i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
+        # Select the solution with the lowest current of those that match the flux
+        psi_error = np.abs(np.sqrt((self.psi_p + self.l_d * i_d) ** 2 + (self.l_q * i_q) ** 2) - psi)
+        idx = np.where(psi_error <= np.min(psi_error) + 0.01 * np.abs(psi))[0]
+        idx = idx[np.argmin(i_d[idx] ** 2 + i_q[idx] ** 2)]
+        return i_d[idx], i_q[idx]
 
     def _get_i_d_q(self, torque, psi, psi_idx):
         """Get the i_d and i_q current from the MTPC lut"""
-- 
2.43.0


From f170f92a498a1cc2299bd915adba183464d75ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 72/89] fix: operating points of synchronous machines without
 saliency can be calculated (C30)

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 14bad16..ff0e692 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -72,7 +72,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                     i_d = i_d_(i_q, t, self)
 
             # Different current vectors are determined for each reference and the smallest magnitude is selected
-            i = np.power(i_d, 2) + np.power(i_q, 2)
+            i = np.atleast_1d(np.power(i_d, 2) + np.power(i_q, 2))
             min_idx = np.where(i == np.amin(i))[0][0]
             if self.l_d == self.l_q:
                 i_q_ret = i_q
-- 
2.43.0


From 2d46cb2479364f5ca661b4b8e7faadeb8a5c6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 73/89] fix: operating point of a limited torque is looked up
 with the limited torque (C30)

---
 src/gem_controllers/stages/operation_point_selection/pmsm_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index ff0e692..683f799 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -344,6 +344,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         t_max = np.abs(self.mtpf[psi_max_idx, 1])
         if np.abs(reference) > t_max:
             reference = np.sign(reference) * t_max
+            psi_idx_ = self._get_t_idx_mtpc(reference)
 
         # calculate the currents online
         if self.torque_control_type == "online":
-- 
2.43.0


From 0e8483d11ce239d3e98ef7eccbc61a5de84ffa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:55 +0000
Subject: [PATCH 74/89] fix: squared constraint judges the normalized states of
 every system (C11)

---
 src/gym_electric_motor/constraints.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/constraints.py b/src/gym_electric_motor/constraints.py
index 6f81edc..bfd9ff9 100644
--- a/src/gym_electric_motor/constraints.py
+++ b/src/gym_electric_motor/constraints.py
@@ -90,13 +90,11 @@ class SquaredConstraint(Constraint):
         self._states = states
         self._state_indices = ()
         self._limits = ()
-        self._normalized = False
 
     def set_modules(self, ps):
         self._state_indices = [ps.state_positions[state] for state in self._states]
         self._limits = ps.limits[self._state_indices]
-        self._normalized = not np.all(ps.state_space.high[self._state_indices] == self._limits)
 
     def __call__(self, state):
-        state_ = state[self._state_indices] if self._normalized else state[self._state_indices] / self._limits
-        return float(np.sum(state_**2) > 1.0)
+        # The state is always normalized to the limits
+        return float(np.sum(state[self._state_indices] ** 2) > 1.0)
-- 
2.43.0


From dc24fbbca8561929403360e864e2102b3d58620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:21 +0000
Subject: [PATCH 75/89] fix: state plots show physical values of all states
 (C27)

---
 .../visualization/motor_dashboard_plots/state_plot.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/state_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/state_plot.py
index ca48331..7a8931a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/state_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/state_plot.py
@@ -64,7 +64,7 @@ class StatePlot(TimePlot):
         self._state_data = []
         self._ref_data = []
 
-        # Flag, if the passed data is normalized
+        # Flag, if the state space of the plotted variable is normalized. The passed data is always normalized.
         self._normalized = True
 
         self._scale_plots_to_data = False
@@ -84,7 +84,7 @@ class StatePlot(TimePlot):
         )
         # Bool: if the state is referenced.
         self._referenced = rg.referenced_states[self._state_idx]
-        # Bool: if the data is already normalized to an interval of [-1, 1]
+        # Bool: if the state space is normalized to an interval of [-1, 1]
         self._normalized = self._limits != self._state_space[1]
         self.reset_data()
 
@@ -155,6 +155,6 @@ class StatePlot(TimePlot):
         ref = reference[self._state_idx]
         idx = self.data_idx
         self._x_data[idx] = self._t
-        self._state_data[idx] = state_ * self._limits if self._normalized else state_
+        self._state_data[idx] = state_ * self._limits
         if self._referenced:
-            self._ref_data[idx] = ref * self._limits if self._normalized else ref
+            self._ref_data[idx] = ref * self._limits
-- 
2.43.0


From 195e98d23fd05a95266dbb61769b8db0e9ac8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 76/89] fix: inertia of a load that is used in several systems
 does not accumulate (C18)

---
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 4046b11..74e6b17 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -192,7 +192,7 @@ class MechanicalLoad(RandomComponent):
         Args:
             j_rotor(float): The moment of inertia of the rotor shaft of the motor.
         """
-        self._j_total += j_rotor
+        self._j_total = self._j_load + j_rotor
 
     def mechanical_ode(self, t, mechanical_state, torque):
         """
-- 
2.43.0


From 1202b183cdb51bbd3a6772375f5de73083f63cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:10 +0000
Subject: [PATCH 77/89] fix: reference generators use the configured ranges in
 every system they are used in (C13)

---
 .../sawtooth_reference_generator.py                    | 10 ++++++----
 .../sinusoidal_reference_generator.py                  | 10 ++++++----
 .../reference_generators/step_reference_generator.py   | 10 ++++++----
 .../subepisoded_reference_generator.py                 |  8 ++++++++
 .../triangle_reference_generator.py                    | 10 ++++++----
 .../wiener_process_reference_generator.py              |  4 ++--
 6 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index a7740d1..e4d6556 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -24,19 +24,21 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
 
         """
         super().__init__(**kwargs)
-        self._amplitude_range = amplitude_range or (0, np.inf)
+        self._user_amplitude_range = amplitude_range or (0, np.inf)
+        self._amplitude_range = self._user_amplitude_range
         self._frequency_range = frequency_range
-        self._offset_range = offset_range or (-np.inf, np.inf)
+        self._user_offset_range = offset_range or (-np.inf, np.inf)
+        self._offset_range = self._user_offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            self._user_amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
         # limit_margin will range from(-1, 1) but amplitude cannot exceed 1
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(self._user_offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         # get absolute values of amplitude, frequency and offset
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index ce309ca..cd41e51 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -29,18 +29,20 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
             kwargs(any): Arguments passed to the superclass SubepisodedReferenceGenerator .
         """
         super().__init__(**kwargs)
-        self._amplitude_range = amplitude_range or (0, np.inf)
+        self._user_amplitude_range = amplitude_range or (0, np.inf)
+        self._amplitude_range = self._user_amplitude_range
         self._frequency_range = frequency_range
-        self._offset_range = offset_range or (-np.inf, np.inf)
+        self._user_offset_range = offset_range or (-np.inf, np.inf)
+        self._offset_range = self._user_offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            self._user_amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(self._user_offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         self._amplitude = self._get_current_value(self._amplitude_range)
diff --git a/src/gym_electric_motor/reference_generators/step_reference_generator.py b/src/gym_electric_motor/reference_generators/step_reference_generator.py
index 4b1efd7..9909359 100644
--- a/src/gym_electric_motor/reference_generators/step_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/step_reference_generator.py
@@ -22,18 +22,20 @@ class StepReferenceGenerator(SubepisodedReferenceGenerator):
             kwargs(any): Arguments passed to the superclass SubepisodedReferenceGenerator .
         """
         super().__init__(**kwargs)
-        self._amplitude_range = amplitude_range or (0, np.inf)
+        self._user_amplitude_range = amplitude_range or (0, np.inf)
+        self._amplitude_range = self._user_amplitude_range
         self._frequency_range = frequency_range
-        self._offset_range = offset_range or (-np.inf, np.inf)
+        self._user_offset_range = offset_range or (-np.inf, np.inf)
+        self._offset_range = self._user_offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            self._user_amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(self._user_offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         self._amplitude = self._get_current_value(self._amplitude_range)
diff --git a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
index 6cf31d8..274a6be 100644
--- a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
@@ -35,6 +35,9 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
         self.reference_space = Box(-1, 1, shape=(1,), dtype=np.float64)
         self._reference = None
         self._limit_margin = limit_margin
+        # The configured margin and the absolute margin that has been derived from it for the last physical system
+        self._configured_limit_margin = limit_margin
+        self._absolute_limit_margin = None
         self._reference_value = 0.0
         self._reference_state = reference_state.lower()
         self._episode_len_range = episode_lengths
@@ -47,6 +50,10 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
         self._referenced_states = set_state_array({self._reference_state: 1}, physical_system.state_names).astype(bool)
         rs = self._referenced_states
         ps = physical_system
+        if self._absolute_limit_margin is not None and self._limit_margin is self._absolute_limit_margin:
+            # The generator has already been used in another system. Its margin is derived from the configured one again.
+            self._limit_margin = self._configured_limit_margin
+        self._configured_limit_margin = self._limit_margin
         if self._limit_margin is None:
             upper_margin = (ps.nominal_state[rs] / ps.limits[rs])[0] * ps.state_space.high[rs]
             lower_margin = (ps.nominal_state[rs] / ps.limits[rs])[0] * ps.state_space.low[rs]
@@ -61,6 +68,7 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
             self._limit_margin = lower_margin[0], upper_margin[0]
         else:
             raise Exception("Unknown type for the limit margin.")
+        self._absolute_limit_margin = self._limit_margin
         self.reference_space = Box(lower_margin[0], upper_margin[0], shape=(1,), dtype=np.float64)
 
     def reset(self, initial_state=None, initial_reference=None):
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 98181d4..7425b3f 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -30,19 +30,21 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._amplitude = 0.0
         self._frequency = 0.0
         self._offset = 0.0
-        self._amplitude_range = amplitude_range or (0, np.inf)
+        self._user_amplitude_range = amplitude_range or (0, np.inf)
+        self._amplitude_range = self._user_amplitude_range
         self._frequency_range = frequency_range
-        self._offset_range = offset_range or (-np.inf, np.inf)
+        self._user_offset_range = offset_range or (-np.inf, np.inf)
+        self._offset_range = self._user_offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
         # but amplitude and offset cannot exceed limit margin
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            self._user_amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(self._user_offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         # get absolute values of amplitude, frequency and offset
diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1fb93a9..78795ba 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -18,14 +18,14 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
             kwargs: Further arguments to pass to :py:class:`.SubepisodedReferenceGenerator`
         """
         super().__init__(**kwargs)
+        self._user_initial_range = initial_range
         self._initial_range = initial_range
         self._current_sigma = 0
         self._sigma_range = sigma_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
-        if self._initial_range is None:
-            self._initial_range = self._limit_margin
+        self._initial_range = self._limit_margin if self._user_initial_range is None else self._user_initial_range
 
     def _reset_reference(self):
         self._current_sigma = 10 ** self._get_current_value(np.log10(self._sigma_range))
-- 
2.43.0


From 7d60b5fc6dc96f6c1d4bb11fe5e82e72ede73ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 78/89] fix: reward function uses the configured parameters in
 every system it is used in (C12)

---
 .../reward_functions/weighted_sum_of_errors.py           | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py b/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
index 27cd620..a1f118c 100644
--- a/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
+++ b/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
@@ -77,6 +77,10 @@ class WeightedSumOfErrors(RewardFunction):
                 - 'positive': The bias is selected so that the minimal reward is zero and all further are positive.
         """
         super().__init__()
+        # The parameters as passed by the user. The values of the current system are derived from them in set_modules.
+        self._user_parameter = dict(
+            n=reward_power, reward_weights=reward_weights, bias=bias, violation_reward=violation_reward
+        )
         self._n = reward_power
         self._reward_weights = reward_weights
         self._state_length = None
@@ -89,7 +93,10 @@ class WeightedSumOfErrors(RewardFunction):
         super().set_modules(physical_system, reference_generator, constraint_monitor)
         ps = physical_system
         self._state_length = ps.state_space.high - ps.state_space.low
-        self._n = set_state_array(self._n, ps.state_names)
+        self._n = set_state_array(self._user_parameter["n"], ps.state_names)
+        self._reward_weights = self._user_parameter["reward_weights"]
+        self._bias = self._user_parameter["bias"]
+        self._violation_reward = self._user_parameter["violation_reward"]
         referenced_states = reference_generator.referenced_states
         if self._reward_weights is None:
             # If there are any referenced states reward weights are equally distributed over them
-- 
2.43.0


From abe855ccfa239055b1442c84a9dae616b7f6db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:51 +0000
Subject: [PATCH 79/89] fix: default reset actions of the dead time fit the
 current physical system (C09)

---
 .../physical_system_wrappers/dead_time_processor.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 52dcda8..06d3802 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -33,6 +33,8 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
         physical_system(PhysicalSystem (optional)): The inner physical system of this PhysicalSystemWrapper.
         """
         self._reset_actions = reset_action
+        # The default reset actions are derived from the action space of the current physical system
+        self._default_reset_actions = reset_action is None
         self._steps = int(steps)
         assert self._steps > 0, f'The number of steps has to be greater than 0. A "{steps}" has been passed.'
         self._action_deque = deque(maxlen=steps)
@@ -45,7 +47,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             physical_system(PhysicalSystem): The physical system to be set.
         """
         super().set_physical_system(physical_system)
-        if self._reset_actions is None:
+        if self._default_reset_actions:
             action_space = physical_system.action_space
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
-- 
2.43.0


From e38180903784d0a22b168478dca04d67ec044e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:01 +0000
Subject: [PATCH 80/89] fix: operating points of the EESM realise torque and
 flux, also where the flux is limited (C30)

---
 .../operation_point_selection/eesm_ops.py     | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 5217547..f48c8bd 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -100,9 +100,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (2 * self.l_q * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
@@ -119,15 +119,20 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             i_e(float): The excitation current.
 
         Returns:
-            i_d(float): optimal i_sd current
-            i_q(flaot): optimal i_sq current
+            i_d(float): optimal i_sd current (nan, if no currents realise the torque and the flux)
+            i_q(flaot): optimal i_sq current (nan, if no currents realise the torque and the flux)
         """
-        if torque == 0 and i_e == 0:
-            return 0, 0
-        else:
-            i_d = np.real(np.roots(self.poly(i_e, psi, torque))[-1])
+        i_d = np.append(np.real(np.roots(self.poly(i_e, psi, torque))), 0.0)
+        i_q = np.zeros_like(i_d)
+        if torque != 0:
             i_q = 2 * torque / (3 * self.p * (self.l_m * i_e + (self.l_d - self.l_q) * i_d))
-            return i_d, i_q
+        # Select the solution with the lowest current of those that match the flux
+        psi_error = np.abs(np.sqrt((self.l_m * i_e + self.l_d * i_d) ** 2 + (self.l_q * i_q) ** 2) - psi)
+        idx = np.where(psi_error <= 1e-3 * self.psi_max)[0]
+        if len(idx) == 0:
+            return np.nan, np.nan  # no currents with this torque and flux
+        idx = idx[np.argmin(i_d[idx] ** 2 + i_q[idx] ** 2)]
+        return i_d[idx], i_q[idx]
 
     def _calculate_luts(self):
         """
@@ -251,7 +256,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         psi = np.clip(psi_opt, 0, psi_max)
 
-        t_max = self.t_max_psi(psi_opt)
+        t_max = self.t_max_psi(min(psi, self.psi_max))
         t_ref_clip = np.clip(t_ref_clip, 0, t_max)
 
         t_idx = self._get_t_idx(t_ref_clip)
-- 
2.43.0


From 05f508f84c6501a2afa224c0a9ae85be206660d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:39 +0000
Subject: [PATCH 81/89] fix: interpolated operating points at the border of the
 possible combinations are finite (C30)

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 683f799..d1e66cf 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -244,6 +244,12 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.i_q_inter = sp_interpolate.griddata((t, psi), i_q, (self.t_grid, self.psi_grid), method="linear")
             self.i_d_inter = sp_interpolate.griddata((t, psi), i_d, (self.t_grid, self.psi_grid), method="linear")
 
+            # Use the nearest combination, where the grid lies outside of the hull of the possible combinations
+            nearest = sp_interpolate.NearestNDInterpolator((t, psi), np.array([i_q, i_d]).T, rescale=True)
+            nearest = nearest(self.t_grid, self.psi_grid)
+            self.i_q_inter = np.where(np.isnan(self.i_q_inter), nearest[..., 0], self.i_q_inter)
+            self.i_d_inter = np.where(np.isnan(self.i_d_inter), nearest[..., 1], self.i_d_inter)
+
         elif self.torque_control_type != "online":
             raise NotImplementedError
 
-- 
2.43.0


From fb8cfa30217f645fbd92da4c84597de42c93824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:12 +0000
Subject: [PATCH 82/89] fix: console printer reports the finished episode also
 when it is rendered later, and counts steps per episode (C27)

---
 .../visualization/console_printer.py          | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/gym_electric_motor/visualization/console_printer.py b/src/gym_electric_motor/visualization/console_printer.py
index df1d756..eb59d98 100644
--- a/src/gym_electric_motor/visualization/console_printer.py
+++ b/src/gym_electric_motor/visualization/console_printer.py
@@ -36,11 +36,19 @@ class ConsolePrinter(ElectricMotorVisualization):
         self._cum_reward = 0
         self._done = False
         self._episode = 0
+        # Number, violation flag, number of steps and cumulative reward of the last finished episode
+        self._finished_episode = (0, False, 0, 0)
         np.set_printoptions(formatter={"float": "{:9.3f}".format})
         self._reset = False
 
     def on_reset_begin(self):
         """Gets called on environment reset. Handles internal value reset and External reset printing"""
+        # Keep the data of the finished episode, because it may be printed after the new episode has been started
+        self._finished_episode = (self._episode, self._done, self._k, self._cum_reward)
+        self._episode += 1
+        self._k = 0
+        self._cum_reward = 0
+        self._done = False
         self._reset = True
 
     def on_reset_end(self, state, reference):
@@ -68,15 +76,14 @@ class ConsolePrinter(ElectricMotorVisualization):
     def render(self):
         if self._print_freq > 0:
             if self._reset:
+                episode, violation, steps, cum_reward = self._finished_episode
                 print(
-                    f"\nEpisode {self._episode} ",
-                    "Constraint Violation! " if self._done else "External Reset. ",
-                    f"Number of steps: {self._k: 8d} ",
-                    f"Cumulative Reward: {self._cum_reward:7.3f}\n",
+                    f"\nEpisode {episode} ",
+                    "Constraint Violation! " if violation else "External Reset. ",
+                    f"Number of steps: {steps: 8d} ",
+                    f"Cumulative Reward: {cum_reward:7.3f}\n",
                 )
-                self._cum_reward = 0
                 self._reset = False
-                self._episode += 1
 
             if self._print_freq == 2 and (self._k % self._update_freq) == 0:
                 print(
-- 
2.43.0


From 0c8c36624681b8ec53c2da7273d3794693a709c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:19 +0000
Subject: [PATCH 83/89] fix: tuning a controller works with visualizations
 other than a dashboard (C26)

---
 src/gem_controllers/reference_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 76c892c..bdaa057 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -24,7 +24,7 @@ class ReferencePlotter:
         """
         if plot_references:
             for visualization in env.visualizations:
-                for time_plot in visualization._time_plots:
+                for time_plot in getattr(visualization, "_time_plots", []):
                     if isinstance(time_plot, StatePlot):
                         if time_plot.state in referenced_states:
                             self._referenced_plots.append(time_plot)
-- 
2.43.0


From ee389263d9ef34a4da42fe5abe352b825c87eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:34 +0000
Subject: [PATCH 84/89] fix: only plot references of subordinate stages when
 they are updated and requested (C26)

---
 src/gem_controllers/gem_adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 4ed6628..fbcd7ea 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -66,6 +66,7 @@ class GymElectricMotorAdapter(GemController):
             self._output_stage = gc.stages.ContOutputStage()
         self._block_diagram = None
         self._reference_plotter = gc.ReferencePlotter()
+        self.should_plot = False
 
     def control(self, state, reference):
         """
@@ -112,7 +113,7 @@ class GymElectricMotorAdapter(GemController):
         self._reference_plotter.tune(
             env,
             self._controller.referenced_states,
-            plot_references=True,
+            plot_references=self.should_plot and kwargs.get("plot_references", True),
             maximum_reference=self._controller.maximum_reference,
         )
 
-- 
2.43.0


From 97a7d26f0685c5f5120b434bd355ea2b8f8b185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:47 +0000
Subject: [PATCH 85/89] fix: legend label of the maximum armature and
 excitation current references (C26)

---
 src/gem_controllers/reference_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index bdaa057..1f4cebf 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -50,7 +50,7 @@ class ReferencePlotter:
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_\mathrm{ max}}$", i_e="$i^*_{e}$$_\mathrm{ max}}$"
+                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_{\mathrm{ max}}$", i_e="$i^*_{e}$$_{\mathrm{ max}}$"
                     )
                     plot._axis.axhline(self._maximum_reference[plot.state][0], c="g", linewidth=0.75, linestyle="--")
                     plot._axis.axhline(self._maximum_reference[plot.state][1], c="g", linewidth=0.75, linestyle="--")
-- 
2.43.0


From a84c415924d086b5d603d1d2f2fc029cfa541eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:55 +0000
Subject: [PATCH 86/89] fix: plotting references of a controller before the
 dashboard was rendered (C26)

---
 src/gem_controllers/reference_plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 1f4cebf..f40065a 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -46,7 +46,8 @@ class ReferencePlotter:
             references(np.ndarray): Array of all reference values of the subordinate stages.
         """
 
-        if not self._maximum_reference_set:
+        # The limit lines can only be added after the figures have been initialized by the first rendering
+        if not self._maximum_reference_set and all(plot._axis is not None for plot in self._referenced_plots):
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-- 
2.43.0


From 14b7674e082a64a8d53b67111e4e6f92c1fe3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 87/89] fix: a StateObserver returns the named state or next
 reference of the latest observation (C15)

---
 src/gym_electric_motor/core.py               | 2 ++
 src/gym_electric_motor/observers/observer.py | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index daeb3db..2e95e97 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -314,6 +314,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         state = self._physical_system.reset()
         reference, next_ref, _ = self.reference_generator.reset(state)
         self._reward_function.reset(state, reference)
+        self.current_state, self.current_reference, self.current_next_reference = state, reference, np.copy(next_ref)
         self._call_callbacks("on_reset_end", state, reference)
 
         observation = (state[self.state_filter], next_ref)
@@ -352,6 +353,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         self._terminated = violation_degree >= 1.0
         ref_next = self.reference_generator.get_reference_observation(state)
 
+        self.current_reference, self.current_next_reference = reference, np.copy(ref_next)
         self.current_observation = (state, ref_next)
 
         self._call_callbacks(
diff --git a/src/gym_electric_motor/observers/observer.py b/src/gym_electric_motor/observers/observer.py
index eb489ae..98ef375 100644
--- a/src/gym_electric_motor/observers/observer.py
+++ b/src/gym_electric_motor/observers/observer.py
@@ -41,11 +41,13 @@ class StateObserver(Observer):
         # Integrate reference into states
 
         state_names = self.state_names
+        env = self.env.unwrapped
 
         if state in state_names:
-            state_value = self.env.current_state[state_names.index(state)]
-            if state_value is not None:
-                return (state, state_value)
+            if env.current_state is not None:
+                # The names are those of the filtered states followed by those of the references
+                values = [*env.current_state[env.state_filter], *env.current_next_reference]
+                return (state, values[state_names.index(state)])
             else:
                 raise ValueError(f"State '{state}' is None")
         else:
-- 
2.43.0


From 3770e3ba2bd480da44c2682112f80a07558c1c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:22 +0000
Subject: [PATCH 88/89] fix: a controller can be made for an environment
 wrapped by gymnasium (C26)

---
 src/gem_controllers/gem_controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 223f56d..ba2444e 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -64,6 +64,8 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
+        # The wrappers of gymnasium do not forward the attributes of the environment
+        env = env.unwrapped
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
-- 
2.43.0


From 66c7c00a94db072e0a675a1d1503fd123d206eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:03 +0000
Subject: [PATCH 89/89] fix: angle advance of the abc transformation takes the
 dead time of the system into account (C26)

---
 src/gem_controllers/stages/abc_transformation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index ffc9730..bb9ba56 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -76,9 +76,9 @@ class AbcTransformation(Stage):
         self.omega_idx = env.state_names.index("omega")
         self.tau = env.physical_system.tau
         self._p = reader.p_reader[gc.utils.get_motor_type(env_id)](env)
-        if hasattr(env.physical_system.converter, "dead_time"):
-            self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
-        else:
-            self._advance_factor = 0.5
+        self._advance_factor = 0.5
+        # If dead time has been added to the system, the angle advance increases by the amount of dead time steps
+        if hasattr(env.physical_system, "dead_time"):
+            self._advance_factor += env.physical_system.dead_time
         action_type, _, motor_type = gc.utils.split_env_id(env_id)
         self._output_len = len(reader.get_output_voltages(motor_type, action_type))
-- 
2.43.0

