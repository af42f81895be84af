From 08bd9af450dc5e240448191ec807c863652c033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 01/95] fix: frame transformations no longer scale the caller's
 normalised angle in place

---
 .../physical_systems/physical_systems.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..f93855e 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -361,7 +361,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(self._electrical_motor.t_23(abc_quantities), epsilon_el)
         return dq_quantity
 
@@ -378,7 +378,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_a, quantity_b, quantity_c): The quantities in the abc-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.t_32(self._electrical_motor.q(dq_quantities, epsilon_el))
 
     def alphabeta_to_dq_space(self, alphabeta_quantities, epsilon_el, normed_epsilon=False):
@@ -394,7 +394,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(alphabeta_quantities, epsilon_el)
         return dq_quantity
 
@@ -411,7 +411,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_alpha, quantity_beta): The quantities in the alphabeta-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.q(dq_quantities, epsilon_el)
 
 
-- 
2.43.0


From 29ae3a48ba8b96879a51edb8a4fdab8c70039903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 02/95] fix: report phase and dq currents at the rotor/field
 angle reached at the end of the step

---
 .../physical_systems/physical_systems.py                   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index f93855e..7fca3ed 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -516,10 +516,10 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq, eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq, u_in, u_dq, [eps], u_sup))
         return system_state / self._limits
@@ -648,10 +648,10 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq_e, u_in[:3], u_dq_e, [eps], u_sup))
         return system_state / self._limits
@@ -803,6 +803,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -1025,6 +1026,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
 
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
 
-- 
2.43.0


From aa6609dd208bce8fca15dc099dcbf7a8d3a1f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 03/95] fix: EESM simulation with several switching
 sub-intervals per step

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 7fca3ed..4681f26 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -629,12 +629,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From 57c24ef8b15f2667eab2b3a497f8c9680a01db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 04/95] fix: DFIM reset transforms the rotor current with the
 field angle

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 4681f26..1a795ed 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -1090,7 +1090,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From 2b1f93d5f923f671a6b4ab0c9d8532b36e4cb863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 05/95] fix: EESM reset reports the excitation voltage in its
 own state slot

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 1a795ed..4432e7d 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -684,8 +684,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
                 [torque],
                 i_abc,
                 i_dq,
-                u_abc,
+                u_abc[:3],
                 u_dq,
+                u_abc[3:],
                 [eps],
                 u_sup,
             )
-- 
2.43.0


From 52fdaaba775ad4e44890d28c0854ac7e2a995bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 06/95] fix: DFIM converter gets the rotor currents in rotor
 coordinates

---
 .../physical_systems/physical_systems.py                  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 4432e7d..78da7d4 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -985,7 +985,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        i_rdef = self.alphabeta_to_abc_space(
+            self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_el)
+        )
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1006,7 +1008,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            i_rdef = self.alphabeta_to_abc_space(
+                self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_el)
+            )
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From d4a2a3d7f17b76842b4897d0dfa3b2cbcc0a1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 07/95] fix: EESM systems honour the dq control space

---
 .../physical_systems/physical_systems.py                 | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 78da7d4..d64f4e1 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -564,6 +564,13 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
     """SCML-System that can be used with the externally excited synchronous motor (EESM)"""
 
+    def __init__(self, control_space="abc", **kwargs):
+        # Docstring of superclass
+        super().__init__(control_space=control_space, **kwargs)
+        if control_space == "dq":
+            # The excitation circuit is controlled directly by the third action
+            self._action_space = Box(-1, 1, shape=(3,), dtype=np.float64)
+
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
@@ -620,6 +627,8 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         # Docstring of superclass
         ode_state = self._ode_solver.y
         eps = ode_state[self._ode_epsilon_idx]
+        if self.control_space == "dq":
+            action = np.concatenate((self.dq_to_abc_space(action[:2], eps), action[2:]))
         i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
         i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
         switching_times = self._converter.set_action(action, self._t)
-- 
2.43.0


From de8baec6357e563bb977065193f304809c570b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/95] fix: evaluate the converter for the sub-interval being
 integrated so the interlocking time ends on time

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index d64f4e1..19c9f2f 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -177,7 +177,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
@@ -185,7 +185,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -496,7 +496,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -506,7 +506,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -636,7 +636,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
@@ -647,7 +647,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+        u_in = self._converter.convert(i_in_abc_e, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -793,7 +793,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -803,7 +803,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -1002,7 +1002,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1023,7 +1023,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), switching_times[-1])
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From 34626fc5c8af83669dcd5850f78635efb4f809d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 09/95] fix: pass a changed sampling time on to the legs of
 composed converters

---
 src/gym_electric_motor/physical_systems/converters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..ff9c44a 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -22,6 +22,8 @@ class PowerElectronicConverter:
     action_space = None
     #: Default action that is taken after a reset.
     _reset_action = None
+    #: Legs of a composed converter. They work with the same sampling time.
+    _subconverters = ()
 
     @property
     def tau(self):
@@ -31,6 +33,8 @@ class PowerElectronicConverter:
     @tau.setter
     def tau(self, value):
         self._tau = float(value)
+        for subconverter in self._subconverters:
+            subconverter.tau = value
 
     def __init__(self, tau, interlocking_time=0.0):
         """
@@ -804,6 +808,7 @@ class FiniteB6BridgeConverter(FiniteConverter):
             FiniteTwoQuadrantConverter(tau=tau, **kwargs),
             FiniteTwoQuadrantConverter(tau=tau, **kwargs),
         ]
+        self._subconverters = self._sub_converters
 
     def reset(self):
         # Docstring in base class
-- 
2.43.0


From 1235625be9e40bc5d5add487b2d1935d2e57e7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 10/95] fix: finite converters forget the switching state of
 the previous episode on reset

---
 src/gym_electric_motor/physical_systems/converters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index ff9c44a..ea4b498 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -204,6 +204,12 @@ class FiniteConverter(PowerElectronicConverter):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
 
+    def reset(self):
+        # Docstring in base class
+        self._switching_pattern = []
+        self._switching_state = 0
+        return super().reset()
+
     def set_action(self, action, t):
         assert self.action_space.contains(
             action
-- 
2.43.0


From 22fc7f387e48dbb6db5cd3dc414d14b81c155d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 11/95] fix: system equation returns a new array per evaluation
 instead of one shared buffer

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 19c9f2f..da1b526 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        # The solvers keep earlier evaluations, therefore they must not be overwritten by the next one.
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From d55f36cc4937fcc477abef107dbdea620a29c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 12/95] fix: EulerSolver with several sub-steps evaluates each
 at its own start time

---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From 0aceee0a5bbc16e593dbd36886568265814344e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 13/95] fix: loads no longer write their initial speed into the
 class defaults and the user's initializer

---
 .../physical_systems/mechanical_loads/mechanical_load.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..fe75200 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -1,3 +1,4 @@
+import copy
 import warnings
 
 import numpy as np
@@ -93,8 +94,9 @@ class MechanicalLoad(RandomComponent):
         self._limits = {}
         self._nominal_values = {}
         load_initializer = load_initializer or {}
-        self._initializer = self._default_initializer.copy()
-        self._initializer.update(load_initializer)
+        # Deep copies, because the states are updated during the initialization and by the subclasses.
+        self._initializer = copy.deepcopy(self._default_initializer)
+        self._initializer.update(copy.deepcopy(load_initializer))
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From e55601a44a8a8c575a7549adc895f18b562e9f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 14/95] fix: a load used in a second system does not keep the
 rotor inertia of the first

---
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index fe75200..d9f891f 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -192,7 +192,7 @@ class MechanicalLoad(RandomComponent):
         Args:
             j_rotor(float): The moment of inertia of the rotor shaft of the motor.
         """
-        self._j_total += j_rotor
+        self._j_total = self._j_load + j_rotor
 
     def mechanical_ode(self, t, mechanical_state, torque):
         """
-- 
2.43.0


From 05f5de09f59f62b8fe53f5c3b6c4bed8173e9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 15/95] fix: OrnsteinUhlenbeckLoad can be instantiated and
 draws from its own seeded generator

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..2ba58f7 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
         self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From f4194cbc4c8a2856f75131810e82cc4abbf03ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 16/95] fix: OrnsteinUhlenbeckLoad returns the speed derivative
 instead of the increment per time step

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 2ba58f7..b119228 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -30,7 +30,8 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
+        # Derivative of the speed: the increment of the process during one time step divided by the step.
+        diff = self.theta * (self.mu - omega) + self.sigma / np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
-- 
2.43.0


From b24ad6c226f403262ae7ffd9d9f22b1fde211fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 17/95] fix: configured initial motor states are assigned by
 name instead of by dictionary order

---
 .../physical_systems/electric_motors/electric_motor.py         | 3 ++-
 .../physical_systems/electric_motors/induction_motor.py        | 3 ++-
 .../physical_systems/electric_motors/synchronous_motor.py      | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..2667c66 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,7 +280,8 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            # The configured states may be given in any order, the ODE-state has a fixed one.
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS])
         else:
             return np.zeros(len(self.CURRENTS))
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..d7aae10 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -180,7 +180,8 @@ class InductionMotor(ThreePhaseMotor):
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            # The configured states may be given in any order, the ODE-state has a fixed one.
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..c859389 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -126,7 +126,8 @@ class SynchronousMotor(ThreePhaseMotor):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            # The configured states may be given in any order, the ODE-state has a fixed one.
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
-- 
2.43.0


From 9b38e51a9a1d3529342d51b3fe22a5846f0ad53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 18/95] fix: initial flux limits of induction machines use the
 seeded generator and the configured flux angle

---
 .../electric_motors/doubly_fed_induction_motor.py      |  3 +--
 .../electric_motors/induction_motor.py                 | 10 ++++++++++
 .../electric_motors/squirrel_cage_induction_motor.py   |  3 +--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..8ef0009 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -153,8 +153,7 @@ class DoublyFedInductionMotor(InductionMotor):
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
-        # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = self._initial_field_angle()
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index d7aae10..8e36815 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -185,6 +185,16 @@ class InductionMotor(ThreePhaseMotor):
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
+    def _initial_field_angle(self):
+        """Angle of the rotor flux for which the initial flux limits are calculated.
+
+        Returns:
+            float: The angle of the configured constant flux or a random sample from [-pi, pi] for random initial states.
+        """
+        if self._initializer["random_init"] is None:
+            return math.atan2(self._initial_states.get("psi_rbeta", 0.0), self._initial_states.get("psi_ralpha", 0.0))
+        return 2 * np.pi * self.random_generator.random() - np.pi
+
     def electrical_ode(self, state, u_sr_alphabeta, omega, *args):
         """
         The differential equation of the Induction Motor.
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..313fec9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -145,8 +145,7 @@ class SquirrelCageInductionMotor(InductionMotor):
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
-        # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = self._initial_field_angle()
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
-- 
2.43.0


From 2d339c6eb5b6453960424b1da7e3fac8d9fe219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 19/95] fix: induction machines complete the configured initial
 states before deriving the flux limits

---
 .../physical_systems/electric_motors/induction_motor.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 8e36815..f5e0b61 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -178,6 +178,9 @@ class InductionMotor(ThreePhaseMotor):
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
+            # The flux limits depend on the configured currents and not on those of the previous episode.
+            self._initial_states.update(self._default_initializer["states"])
+            self._initial_states.update(self._initializer["states"])
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
             # The configured states may be given in any order, the ODE-state has a fixed one.
-- 
2.43.0


From eb57251fa98297562ba4e3cdba0d7f3c34d028fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 20/95] fix: configured initial limits of induction machines
 are not overwritten by the derived ones

---
 .../physical_systems/electric_motors/electric_motor.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 2667c66..9d70a1d 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -140,6 +140,7 @@ class ElectricMotor(RandomComponent):
         initial_limits = initial_limits or {}
         self._initial_limits = self._nominal_values.copy()
         self._initial_limits.update(initial_limits)
+        self._configured_initial_limits = dict(initial_limits)
         # preventing wrong user input for the basic case
         assert isinstance(self._initializer, dict), "wrong initializer"
 
@@ -324,3 +325,5 @@ class ElectricMotor(RandomComponent):
         """
         nominal_new = dict() if nominal_new is None else nominal_new
         self._initial_limits.update(nominal_new)
+        # Limits configured by the user have priority over derived ones
+        self._initial_limits.update(self._configured_initial_limits)
-- 
2.43.0


From 4bfe204f45a14a00d0828f87e23cbc6c381c1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 21/95] fix: normally distributed initial values are drawn anew
 in each episode

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 9d70a1d..e499844 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -248,7 +248,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d9f891f..bb7c89c 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -150,7 +150,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 149238f0c9e76a75a26c0f46db43bac7ab19cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 22/95] fix: three phase motors start a new random generator in
 each episode

---
 .../physical_systems/electric_motors/induction_motor.py          | 1 +
 .../physical_systems/electric_motors/synchronous_motor.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index f5e0b61..a99d891 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -177,6 +177,7 @@ class InductionMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
             # The flux limits depend on the configured currents and not on those of the previous episode.
             self._initial_states.update(self._default_initializer["states"])
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index c859389..4e9924b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -124,6 +124,7 @@ class SynchronousMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, **__):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
             # The configured states may be given in any order, the ODE-state has a fixed one.
-- 
2.43.0


From 0016e9530fef79774973f1f81d4be1d66da9c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 23/95] fix: accept the documented specific limits and nominal
 values (e.g. i_sd) of three phase motors

---
 .../electric_motors/electric_motor.py             | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e499844..7fa4668 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -42,6 +42,10 @@ class ElectricMotor(RandomComponent):
     CURRENTS = []
     #: VOLTAGES(list(str)): List of the motor input voltages names
     VOLTAGES = []
+    #: IO_VOLTAGES(list(str)): List of further voltage names with limits derived from the general limit u
+    IO_VOLTAGES = []
+    #: IO_CURRENTS(list(str)): List of further current names with limits derived from the general limit i
+    IO_CURRENTS = []
 
     #: _default_motor_parameter(dict): Default parameter dictionary for the motor
     _default_motor_parameter = {}
@@ -127,9 +131,11 @@ class ElectricMotor(RandomComponent):
         self._motor_parameter = self._default_motor_parameter.copy()
         self._motor_parameter = update_parameter_dict(self._default_motor_parameter, motor_parameter)
         limit_values = limit_values or {}
-        self._limits = update_parameter_dict(self._default_limits, limit_values)
+        self._limits = update_parameter_dict(self._with_io_names(self._default_limits, limit_values), limit_values)
         nominal_values = nominal_values or {}
-        self._nominal_values = update_parameter_dict(self._default_nominal_values, nominal_values)
+        self._nominal_values = update_parameter_dict(
+            self._with_io_names(self._default_nominal_values, nominal_values), nominal_values
+        )
         motor_initializer = motor_initializer or {}
         self._initializer = update_parameter_dict(self._default_initializer, motor_initializer)
         self._initial_states = {}
@@ -144,6 +150,11 @@ class ElectricMotor(RandomComponent):
         # preventing wrong user input for the basic case
         assert isinstance(self._initializer, dict), "wrong initializer"
 
+    def _with_io_names(self, defaults, values):
+        """Extends default limits or nominal values by the given specific quantities (e.g. i_a) of the motor."""
+        io_names = [name for name in values if name in self.IO_VOLTAGES or name in self.IO_CURRENTS]
+        return {**{name: 0.0 for name in io_names}, **defaults}
+
     def electrical_ode(self, state, u_in, omega, *_):
         """Calculation of the derivatives of each motor state variable for the given inputs / The motors ODE-System.
 
-- 
2.43.0


From ed497c4be99b9a23db6b945fc0fe3f4b5cd947ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 24/95] fix: creating a DFIM does not change the voltage and
 current names of other induction machines

---
 .../electric_motors/doubly_fed_induction_motor.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 8ef0009..c426098 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,9 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        # New lists, because the class attributes are shared with the other induction machines.
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
-- 
2.43.0


From 09930e09687ed3cd7f7ba42b6b2195352bc8d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 25/95] fix: torque limit of permanent magnet synchronous
 motors with l_d > l_q

---
 .../electric_motors/permanent_magnet_synchronous_motor.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index c2e098f..1558d48 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -127,7 +127,10 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             i_n = self.nominal_values["i"]
             _p = mp["psi_p"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = -(i_n**2) / 2
-            i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            if mp["l_d"] < mp["l_q"]:
+                i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            else:
+                i_d_opt = -_p / 2 + np.sqrt((_p / 2) ** 2 - _q)
             i_q_opt = np.sqrt(i_n**2 - i_d_opt**2)
             return self.torque([i_d_opt, i_q_opt, 0])
 
-- 
2.43.0


From 0c90a1b693a29b13216ae18a86a0cf5817cb297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 26/95] fix: torque limit of externally excited synchronous
 motors uses the flux of the excitation current

---
 .../electric_motors/externally_excited_synchronous_motor.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
index 2095779..88ccec9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
@@ -188,7 +188,7 @@ class ExternallyExcitedSynchronousMotor(SynchronousMotor):
             return self.torque([0, self._limits["i_sq"], self._limits["i_e"], 0])
         else:
             i_n = self.nominal_values["i"]
-            _p = mp["l_M"] * i_n / (2 * (mp["l_d"] - mp["l_q"]))
+            _p = mp["l_M"] * self._limits["i_e"] * mp["i_k_rs"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = - i_n ** 2 / 2
             if mp["l_d"] < mp["l_q"]:
                 i_d_opt = - _p / 2 - np.sqrt((_p / 2) ** 2 - _q)
-- 
2.43.0


From 8a32382f2908ada8570b562c646e63d971e11575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 27/95] fix: AC supplies do not write the random phase into the
 user's supply_parameter

---
 src/gym_electric_motor/physical_systems/voltage_supplies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..f997fc3 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -146,7 +146,7 @@ class AC1PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
         else:
             supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
 
@@ -190,7 +190,7 @@ class AC3PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
         else:
             supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
 
-- 
2.43.0


From ab181a202a22cafc77287a0403cda9f258c4e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 28/95] fix: AC supplies draw their phase from their own seeded
 generator

---
 .../physical_systems/voltage_supplies.py      | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index f997fc3..2025aeb 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -4,6 +4,8 @@ import numpy as np
 
 from gym_electric_motor.physical_systems.solvers import EulerSolver
 
+from ..random_component import RandomComponent
+
 
 class VoltageSupply:
     """Base class for all VoltageSupplies to be used in a SCMLSystem.
@@ -123,7 +125,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -134,6 +136,7 @@ class AC1PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -146,9 +149,9 @@ class AC1PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +159,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +170,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -179,6 +183,7 @@ class AC3PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -190,9 +195,9 @@ class AC3PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +206,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 3e3a8b28ecf861661d3fa7c6f2cb577da02b5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 29/95] fix: merging violations with 'product' gets the list of
 violation degrees

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..135b719 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -814,7 +814,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From e9788d7c1f607de782ba3f589476eb993b950092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 30/95] fix: constraints given to an environment as plain
 functions are monitored

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 135b719..51a1935 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From aa2c15209d6213046d1a179a4211e65a6515fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 31/95] fix: each environment keeps its own sampling time in
 sim

---
 src/gym_electric_motor/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 51a1935..eb9c141 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -231,10 +231,9 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
-        self.sim.tau = physical_system.tau
-
         # TODO physical_system etc should be initialized by the caller
         self._physical_system = physical_system(**kwargs) if isinstance(physical_system, type) else physical_system
+        self.sim = SimulationEnvironment(tau=self._physical_system.tau)
         self._reference_generator = (
             reference_generator(**kwargs) if isinstance(reference_generator, type) else reference_generator
         )
-- 
2.43.0


From 6948f3a147b0ffb57cd4ef2504905e64912aa3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 32/95] fix: reset without a seed continues the seeded random
 streams

---
 src/gym_electric_motor/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index eb9c141..4822bfe 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -305,7 +305,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From 08fd9e7d1f6abf2409e59eca58a55f2e66eada59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 33/95] fix: announce the reference names of a constant
 reference as a list

---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From 65c3e6b0c7ebfc8a1ebb4be637c33e5aa98a2c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 34/95] fix: pass keyword arguments of a multiple reference
 generator on to its sub generators

---
 .../reference_generators/multiple_reference_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
index b0d9d01..e55c3dd 100644
--- a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
@@ -18,7 +18,7 @@ class MultipleReferenceGenerator(ReferenceGenerator, RandomComponent):
                 will be passed to each sub_generator.
             kwargs: All kwargs of the environment. Passed to the sub_generators, if no sub_args are passed.
         """
-        ReferenceGenerator.__init__(self, **kwargs)
+        ReferenceGenerator.__init__(self)
         RandomComponent.__init__(self)
         self.reference_space = Box(-1, 1, shape=(1,), dtype=np.float64)
         if isinstance(sub_args, dict):
-- 
2.43.0


From 1e555c8d8263dd09549e9849d7ba5c90e9b920c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 35/95] fix: remove the angle from the reset vector of the
 CosSinProcessor, too

---
 .../physical_system_wrappers/cos_sin_processor.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..4420554 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -52,6 +52,8 @@ class CosSinProcessor(PhysicalSystemWrapper):
     def reset(self):
         # Docstring of super class
         state = self._physical_system.reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From 19781e6be85c59ddecfdadec8bcc949da3755156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 36/95] fix: normalise the summed current to the limit
 announced for i_sum

---
 .../physical_system_wrappers/current_sum_processor.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
index 7efc20d..e485f8f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
@@ -19,12 +19,14 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
         assert limit in ["max", "sum"]
         self._limit = max if limit == "max" else np.sum
         self._current_indices = []
+        self._current_limits = None
         super().__init__(physical_system)
 
     def set_physical_system(self, physical_system):
         # Docstring of superclass
         super().set_physical_system(physical_system)
         self._current_indices = [physical_system.state_positions[current] for current in self._currents]
+        self._current_limits = physical_system.limits[self._current_indices]
 
         # Define the new state space as concatenation of the old state space and [-1,1] for i_sum
         low = np.concatenate((physical_system.state_space.low, [-1.0]))
@@ -60,6 +62,6 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
             state(numpy.ndarray[float]): The state of the inner system.
 
         Returns:
-            float: The summation of the currents of the state.
+            float: The summation of the currents of the state, normalized to the limit of the sum.
         """
-        return np.sum(state[self._current_indices])
+        return np.sum(state[self._current_indices] * self._current_limits) / self._limits[-1]
-- 
2.43.0


From fcf365107715208d0b1e386f0fa4b85a8cc97eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 37/95] fix: add the state noise to a copy of the state vector
 of the wrapped system

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..6b1f4b9 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper
 
 
@@ -87,6 +89,7 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
         Returns:
             numpy.ndarray[float]): The state with additional noise.
         """
+        state = np.array(state, copy=True)
         state[self._state_indices] = state[self._state_indices] + self._noise[self._random_pointer]
         self._random_pointer += 1
         return state
-- 
2.43.0


From 6778a86b10ac52b8208e6c725c6062cee553a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 38/95] fix: let the StateNoiseProcessor accept the documented
 shortcut 'all'

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 6b1f4b9..8ea1598 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -67,7 +67,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From 9709cbaaef7e5c9d3ecfd9e128e2728c478f1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 39/95] fix: seed the random generator of physical system
 wrappers themselves

---
 .../physical_system_wrappers/physical_system_wrapper.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..5b9ad07 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -107,8 +107,10 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        entropy = RandomComponent.seed(self, seed)
         if isinstance(self._physical_system, RandomComponent):
-            self._physical_system.seed(seed)
+            self._physical_system.seed(self._seed_sequence.spawn(1)[0])
+        return entropy
 
     def __getattr__(self, name):
         return getattr(self._physical_system, name)
-- 
2.43.0


From 37f99af91957c5a16f0bf95c000538c67c641441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 40/95] fix: close the wrapped physical system when a wrapper
 is closed

---
 .../physical_system_wrappers/physical_system_wrapper.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index 5b9ad07..0a0d633 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -124,6 +124,10 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
         self.next_generator()
         return self._physical_system.reset(**kwargs)
 
+    def close(self):
+        # Docstring of super class PhysicalSystem
+        self._physical_system.close()
+
     def __str__(self):
         return "<{}{}>".format(type(self).__name__, self.physical_system)
 
-- 
2.43.0


From b3359d7ca8b9dae0d6800c19be1d0263c6f88334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 41/95] fix: queue plain neutral actions for multi discrete
 action spaces in the dead time

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..302a37f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -49,7 +49,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From 19e8d8df284b90082daf08040b64fed36aca917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 42/95] fix: size the dead time queue with the number of steps
 converted to int

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 302a37f..663ea3a 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -34,7 +34,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
         self._reset_actions = reset_action
         self._steps = int(steps)
         assert self._steps > 0, f'The number of steps has to be greater than 0. A "{steps}" has been passed.'
-        self._action_deque = deque(maxlen=steps)
+        self._action_deque = deque(maxlen=self._steps)
         super().__init__(physical_system)
 
     def set_physical_system(self, physical_system):
-- 
2.43.0


From c813309d69bc20facb721fb313d06cde42e81533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 43/95] fix: keep the flux angle index of a DFIM dq action
 processor built around a system

---
 .../physical_system_wrappers/dq_to_abc_action_processor.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
index f6ef88a..b26495a 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
@@ -120,9 +120,9 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
         return gymnasium.spaces.Box(-1, 1, shape=(4,))
 
     def __init__(self, physical_system=None):
-        super().__init__('epsilon', physical_system=physical_system)
         self._flux_angle_name = 'psi_abs'
         self._flux_angle_index = None
+        super().__init__('epsilon', physical_system=physical_system)
 
     def simulate(self, action):
         """Dq to abc space transformation function for doubly fed induction motor environments.
-- 
2.43.0


From e2121fe7c0fb3e826f876b2fdf08e38549489c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 44/95] fix: give every environment its own default constraint
 objects

---
 src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py    | 4 ++--
 .../doubly_fed_induction_motor_envs/cont_cc_dfim_env.py       | 4 ++--
 .../doubly_fed_induction_motor_envs/cont_sc_dfim_env.py       | 4 ++--
 .../doubly_fed_induction_motor_envs/cont_tc_dfim_env.py       | 4 ++--
 .../doubly_fed_induction_motor_envs/finite_cc_dfim_env.py     | 4 ++--
 .../doubly_fed_induction_motor_envs/finite_sc_dfim_env.py     | 4 ++--
 .../doubly_fed_induction_motor_envs/finite_tc_dfim_env.py     | 4 ++--
 .../squirrel_cage_induction_motor_envs/cont_cc_scim_env.py    | 4 ++--
 .../squirrel_cage_induction_motor_envs/cont_sc_scim_env.py    | 4 ++--
 .../squirrel_cage_induction_motor_envs/cont_tc_scim_env.py    | 4 ++--
 .../squirrel_cage_induction_motor_envs/finite_cc_scim_env.py  | 4 ++--
 .../squirrel_cage_induction_motor_envs/finite_sc_scim_env.py  | 4 ++--
 .../squirrel_cage_induction_motor_envs/finite_tc_scim_env.py  | 4 ++--
 src/gym_electric_motor/envs/gym_pmsm/cont_cc_pmsm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_pmsm/cont_sc_pmsm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_pmsm/cont_tc_pmsm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_pmsm/finite_cc_pmsm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_pmsm/finite_sc_pmsm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_pmsm/finite_tc_pmsm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_synrm/cont_cc_synrm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_synrm/cont_sc_synrm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_synrm/cont_tc_synrm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_synrm/finite_cc_synrm_env.py  | 4 ++--
 src/gym_electric_motor/envs/gym_synrm/finite_sc_synrm_env.py  | 4 ++--
 src/gym_electric_motor/envs/gym_synrm/finite_tc_synrm_env.py  | 4 ++--
 30 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
index 06b842f..dc8638e 100644
--- a/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
@@ -105,7 +105,7 @@ class ContCurrentControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviro
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -192,7 +192,7 @@ class ContCurrentControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviro
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py
index cb01c0a..5683989 100644
--- a/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py
@@ -103,7 +103,7 @@ class ContSpeedControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvironm
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -190,7 +190,7 @@ class ContSpeedControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvironm
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py
index e8f4be5..9b5c67d 100644
--- a/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py
@@ -107,7 +107,7 @@ class ContTorqueControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviron
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -189,7 +189,7 @@ class ContTorqueControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviron
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py
index c165d8f..f3358b8 100644
--- a/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py
@@ -105,7 +105,7 @@ class FiniteCurrentControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvi
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -192,7 +192,7 @@ class FiniteCurrentControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvi
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py
index a8296e2..e66767b 100644
--- a/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py
@@ -102,7 +102,7 @@ class FiniteSpeedControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviro
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -184,7 +184,7 @@ class FiniteSpeedControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviro
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py
index 701dca9..c29357a 100644
--- a/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py
@@ -102,7 +102,7 @@ class FiniteTorqueControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvir
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -184,7 +184,7 @@ class FiniteTorqueControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvir
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")), LimitConstraint(("i_e",))) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
index 0e7785c..acecb29 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
@@ -112,7 +112,7 @@ class ContCurrentControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -199,7 +199,7 @@ class ContCurrentControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
index 7ec1a13..e382aaa 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
@@ -109,7 +109,7 @@ class ContSpeedControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -196,7 +196,7 @@ class ContSpeedControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
index 04586ad..450b8b1 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
@@ -112,7 +112,7 @@ class ContTorqueControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -194,7 +194,7 @@ class ContTorqueControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py
index c5834ba..ddd5bf3 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py
@@ -112,7 +112,7 @@ class FiniteCurrentControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -199,7 +199,7 @@ class FiniteCurrentControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py
index b4d4686..8e825de 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py
@@ -109,7 +109,7 @@ class FiniteSpeedControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -196,7 +196,7 @@ class FiniteSpeedControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py
index c4e1241..451b4a5 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py
@@ -109,7 +109,7 @@ class FiniteTorqueControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -191,7 +191,7 @@ class FiniteTorqueControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_cc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_cc_scim_env.py
index bf7b952..b39515b 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_cc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_cc_scim_env.py
@@ -110,7 +110,7 @@ class ContCurrentControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -188,7 +188,7 @@ class ContCurrentControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_sc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_sc_scim_env.py
index c0cb3e2..c9a1138 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_sc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_sc_scim_env.py
@@ -108,7 +108,7 @@ class ContSpeedControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
         state_filter=None,
         callbacks=(),
         physical_system_wrappers=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         **kwargs,
@@ -186,7 +186,7 @@ class ContSpeedControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_tc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_tc_scim_env.py
index d4edb81..fba2a17 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_tc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/cont_tc_scim_env.py
@@ -110,7 +110,7 @@ class ContTorqueControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -183,7 +183,7 @@ class ContTorqueControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py
index e867fe3..d30df36 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py
@@ -110,7 +110,7 @@ class FiniteCurrentControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -193,7 +193,7 @@ class FiniteCurrentControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py
index 426345c..1e0a509 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py
@@ -107,7 +107,7 @@ class FiniteSpeedControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -191,7 +191,7 @@ class FiniteSpeedControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py
index 8c7fa36..e2c28d3 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py
@@ -107,7 +107,7 @@ class FiniteTorqueControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment)
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -185,7 +185,7 @@ class FiniteTorqueControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment)
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_pmsm/cont_cc_pmsm_env.py b/src/gym_electric_motor/envs/gym_pmsm/cont_cc_pmsm_env.py
index 6c7cf02..3abdb7e 100644
--- a/src/gym_electric_motor/envs/gym_pmsm/cont_cc_pmsm_env.py
+++ b/src/gym_electric_motor/envs/gym_pmsm/cont_cc_pmsm_env.py
@@ -103,7 +103,7 @@ class ContCurrentControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironm
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -181,7 +181,7 @@ class ContCurrentControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironm
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_pmsm/cont_sc_pmsm_env.py b/src/gym_electric_motor/envs/gym_pmsm/cont_sc_pmsm_env.py
index 8362ee4..c641bde 100644
--- a/src/gym_electric_motor/envs/gym_pmsm/cont_sc_pmsm_env.py
+++ b/src/gym_electric_motor/envs/gym_pmsm/cont_sc_pmsm_env.py
@@ -100,7 +100,7 @@ class ContSpeedControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironmen
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -178,7 +178,7 @@ class ContSpeedControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironmen
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_pmsm/cont_tc_pmsm_env.py b/src/gym_electric_motor/envs/gym_pmsm/cont_tc_pmsm_env.py
index e46afb5..b3492f4 100644
--- a/src/gym_electric_motor/envs/gym_pmsm/cont_tc_pmsm_env.py
+++ b/src/gym_electric_motor/envs/gym_pmsm/cont_tc_pmsm_env.py
@@ -103,7 +103,7 @@ class ContTorqueControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironme
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -176,7 +176,7 @@ class ContTorqueControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironme
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_pmsm/finite_cc_pmsm_env.py b/src/gym_electric_motor/envs/gym_pmsm/finite_cc_pmsm_env.py
index bd517fc..f28ad48 100644
--- a/src/gym_electric_motor/envs/gym_pmsm/finite_cc_pmsm_env.py
+++ b/src/gym_electric_motor/envs/gym_pmsm/finite_cc_pmsm_env.py
@@ -103,7 +103,7 @@ class FiniteCurrentControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnviro
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -186,7 +186,7 @@ class FiniteCurrentControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnviro
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_pmsm/finite_sc_pmsm_env.py b/src/gym_electric_motor/envs/gym_pmsm/finite_sc_pmsm_env.py
index f49f0cb..a51f647 100644
--- a/src/gym_electric_motor/envs/gym_pmsm/finite_sc_pmsm_env.py
+++ b/src/gym_electric_motor/envs/gym_pmsm/finite_sc_pmsm_env.py
@@ -100,7 +100,7 @@ class FiniteSpeedControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironm
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -183,7 +183,7 @@ class FiniteSpeedControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnvironm
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_pmsm/finite_tc_pmsm_env.py b/src/gym_electric_motor/envs/gym_pmsm/finite_tc_pmsm_env.py
index 7303ff8..05b7e3d 100644
--- a/src/gym_electric_motor/envs/gym_pmsm/finite_tc_pmsm_env.py
+++ b/src/gym_electric_motor/envs/gym_pmsm/finite_tc_pmsm_env.py
@@ -100,7 +100,7 @@ class FiniteTorqueControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnviron
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -178,7 +178,7 @@ class FiniteTorqueControlPermanentMagnetSynchronousMotorEnv(ElectricMotorEnviron
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_synrm/cont_cc_synrm_env.py b/src/gym_electric_motor/envs/gym_synrm/cont_cc_synrm_env.py
index 499ab06..a5f3a43 100644
--- a/src/gym_electric_motor/envs/gym_synrm/cont_cc_synrm_env.py
+++ b/src/gym_electric_motor/envs/gym_synrm/cont_cc_synrm_env.py
@@ -103,7 +103,7 @@ class ContCurrentControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -181,7 +181,7 @@ class ContCurrentControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_synrm/cont_sc_synrm_env.py b/src/gym_electric_motor/envs/gym_synrm/cont_sc_synrm_env.py
index 0375940..dc0aa97 100644
--- a/src/gym_electric_motor/envs/gym_synrm/cont_sc_synrm_env.py
+++ b/src/gym_electric_motor/envs/gym_synrm/cont_sc_synrm_env.py
@@ -100,7 +100,7 @@ class ContSpeedControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -178,7 +178,7 @@ class ContSpeedControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_synrm/cont_tc_synrm_env.py b/src/gym_electric_motor/envs/gym_synrm/cont_tc_synrm_env.py
index 21959b9..676e4de 100644
--- a/src/gym_electric_motor/envs/gym_synrm/cont_tc_synrm_env.py
+++ b/src/gym_electric_motor/envs/gym_synrm/cont_tc_synrm_env.py
@@ -103,7 +103,7 @@ class ContTorqueControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-4,
         physical_system_wrappers=(),
@@ -176,7 +176,7 @@ class ContTorqueControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_synrm/finite_cc_synrm_env.py b/src/gym_electric_motor/envs/gym_synrm/finite_cc_synrm_env.py
index 6cd4e18..abb95b9 100644
--- a/src/gym_electric_motor/envs/gym_synrm/finite_cc_synrm_env.py
+++ b/src/gym_electric_motor/envs/gym_synrm/finite_cc_synrm_env.py
@@ -103,7 +103,7 @@ class FiniteCurrentControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -186,7 +186,7 @@ class FiniteCurrentControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_synrm/finite_sc_synrm_env.py b/src/gym_electric_motor/envs/gym_synrm/finite_sc_synrm_env.py
index a02a925..5fdf8e1 100644
--- a/src/gym_electric_motor/envs/gym_synrm/finite_sc_synrm_env.py
+++ b/src/gym_electric_motor/envs/gym_synrm/finite_sc_synrm_env.py
@@ -100,7 +100,7 @@ class FiniteSpeedControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -184,7 +184,7 @@ class FiniteSpeedControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment):
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
diff --git a/src/gym_electric_motor/envs/gym_synrm/finite_tc_synrm_env.py b/src/gym_electric_motor/envs/gym_synrm/finite_tc_synrm_env.py
index afabb6a..cee18ad 100644
--- a/src/gym_electric_motor/envs/gym_synrm/finite_tc_synrm_env.py
+++ b/src/gym_electric_motor/envs/gym_synrm/finite_tc_synrm_env.py
@@ -100,7 +100,7 @@ class FiniteTorqueControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment)
         visualization=None,
         state_filter=None,
         callbacks=(),
-        constraints=(SquaredConstraint(("i_sq", "i_sd")),),
+        constraints=None,
         calc_jacobian=True,
         tau=1e-5,
         physical_system_wrappers=(),
@@ -178,7 +178,7 @@ class FiniteTorqueControlSynchronousReluctanceMotorEnv(ElectricMotorEnvironment)
             physical_system=physical_system,
             reference_generator=reference_generator,
             reward_function=reward_function,
-            constraints=constraints,
+            constraints=(SquaredConstraint(("i_sq", "i_sd")),) if constraints is None else constraints,
             visualization=visualization,
             state_filter=state_filter,
             callbacks=callbacks,
-- 
2.43.0


From 040af6ec2b138667adb7035f291956161d51695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 45/95] fix: WienerProcessReferenceGenerator draws the initial
 reference from the new episode's generator

---
 .../reference_generators/wiener_process_reference_generator.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..4757c66 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -41,6 +41,8 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
             self._reference[i] = reference_value
 
     def reset(self, initial_state=None, initial_reference=None):
+        # The initial reference belongs to the new episode.
+        self.next_generator()
         if initial_reference is None:
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
-- 
2.43.0


From ff4a09df9683944c03174255d9fdab4269e9f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 46/95] fix: draws of switched sub reference generators no
 longer depend on the number of switches in earlier episodes

---
 .../reference_generators/switched_reference_generator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index bb6d585..e4be6ca 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -64,6 +64,9 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
+        # The sub generators are reset at every switch. New seeds per episode keep their draws independent of the number
+        # of switches in earlier episodes.
+        self._seed_sub_generators()
         self._reset_reference()
         return self._current_ref_generator.reset(initial_state, initial_reference)
 
@@ -88,7 +91,11 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
         self._current_ref_generator = self.random_generator.choice(self._sub_generators, p=self._probabilities)
 
     def seed(self, seed=None):
-        super().seed(seed)
+        entropy = super().seed(seed)
+        self._seed_sub_generators()
+        return entropy
+
+    def _seed_sub_generators(self):
         for sub_generator in self._sub_generators:
             if isinstance(sub_generator, RandomComponent):
                 seed = self._seed_sequence.spawn(1)[0]
-- 
2.43.0


From 670511b2b91e667ff0ab873ae306850d75eeb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 47/95] fix: do not silently drop component arguments that are
 neither an instance nor a dict

initialize() returned None for a list of visualizations (the base environment accepts iterables),
for dict subclasses and for any unsupported type, so the user's components vanished without notice.
---
 src/gym_electric_motor/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/utils.py b/src/gym_electric_motor/utils.py
index c8457f8..031e46b 100644
--- a/src/gym_electric_motor/utils.py
+++ b/src/gym_electric_motor/utils.py
@@ -11,9 +11,12 @@ def initialize(base_class, arg, default_class, default_args):
         return arg
     elif type(arg) is str:
         raise Exception("Deprecated in version 3.0.0")
-    elif type(arg) is dict:
+    elif isinstance(arg, dict):
         default_args.update(arg)
         return default_class(**default_args)
+    elif isinstance(arg, (list, tuple)) and all(isinstance(component, base_class) for component in arg):
+        return arg
+    raise TypeError(f"Cannot initialize a {base_class.__name__} from {arg!r}.")
 
 
 def state_dict_to_state_array(state_dict, state_array, state_names):
-- 
2.43.0


From f77d67b9e0dff5b361bffa41de7a79f2117845dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 48/95] fix: tune the armature resistance of the PermExDc
 operation point selection

The resistance stayed an empty array, so every torque or speed controller of a permanently excited
dc motor failed in its first control cycle.
---
 .../stages/operation_point_selection/permex_dc_ops.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..8a38ef1 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -88,4 +88,5 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         voltages = reader.voltages[motor]
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
+        self._resistance = reader.r_reader[motor](env)
         self._omega_index = env.state_names.index("omega")
-- 
2.43.0


From c1665f147b47497c7c94a5eb6b3fdd9f0c2d048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 49/95] fix: squared clipping stage has an action range

TorqueController.tune reads the lower and upper action range of its clipping stage, but the squared
clipping stage returned an empty list, so no torque or speed controller of a three-phase motor could be made.
---
 .../stages/clipping_stages/squared_clipping_stage.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..c065b1f 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -1,3 +1,5 @@
+from typing import Tuple
+
 import numpy as np
 
 import gem_controllers as gc
@@ -24,9 +26,10 @@ class SquaredClippingStage(ClippingStage):
         return self._margin
 
     @property
-    def action_range(self):
+    def action_range(self) -> Tuple[np.ndarray, np.ndarray]:
         """Action range of the controller stage"""
-        return []
+        action_range_high = self._limits * (1 - self._margin)
+        return -action_range_high, action_range_high
 
     def __init__(self, control_task="CC"):
         """
-- 
2.43.0


From 90b0b239b9641ca32b9455e745aeac07322e602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 50/95] fix: clip vectors to the tuned limit circle

The vectors were scaled with the square of their relative length: with a margin, references between the
reduced and the full limit left the stage above the reduced limit, all others were shortened too far.
The squared stage ignored the margin it was tuned with and the combined stage applied it twice.
---
 .../stages/clipping_stages/combined_clipping_stage.py    | 9 +++++----
 .../stages/clipping_stages/squared_clipping_stage.py     | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..204e9f2 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,12 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
-        relative_maximum = 1 - self._margin
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
-            else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
+            if relative_reference_length <= 1
+            else reference[self._squared_clipped_states] / relative_reference_length
         )
 
         clipped[self._absolute_clipped_states] = np.clip(
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index c065b1f..cec2713 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -54,11 +54,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
@@ -84,6 +84,7 @@ class SquaredClippingStage(ClippingStage):
             state_names = ["torque"]
         state_indices = [env.state_names.index(state_name) for state_name in state_names]
         self._limits = env.limits[state_indices]
+        self._margin = margin
 
     def reset(self):
         """Reset the squared clipping stage"""
-- 
2.43.0


From cfe1c0b69c34d85a4903d2c1621ad48362c3e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 51/95] fix: replace the removed alias np.complex by complex

---
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..5217547 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..ac7970a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From e4ffbd9bd674f6db69139ff302d4f62a26fb7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 52/95] fix: P and PID speed controllers accept the time
 constant of the torque controller

PISpeedController.tune passes t_n: the P controller rejected it, the PID controller dropped it.
---
 src/gem_controllers/stages/base_controllers/p_controller.py  | 5 +++--
 .../stages/base_controllers/pid_controller.py                | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..0b8e427 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -88,12 +88,13 @@ class PController(BaseController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
             a(float): Design parameter of the symmetrical optimum.
+            t_n(float): Time constant of the underlying torque controller.
         """
 
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..04dd99e 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -64,5 +64,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
-- 
2.43.0


From 29bd2168b136006ff8589fcb51e3bd7da8bbce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 53/95] fix: three point controllers can be tuned

The current controller rejected the design parameter passed by PICurrentController.tune, the speed
controller looked for a state named reference and would not have compared the speed.
---
 .../stages/base_controllers/three_point_controller.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..491383b 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -93,13 +93,14 @@ class ThreePointController(BaseController):
         low_actions = referenced_states - self._hysteresis > reference
         return np.select([low_actions, high_actions], [self._low_action, self._high_action], default=self._idle_action)
 
-    def tune(self, env, env_id, **base_controller_kwargs):
+    def tune(self, env, env_id, a=4, **base_controller_kwargs):
         """
         Tune a three point controller stage.
 
         Args:
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
+            a(float): Design parameter of the symmetrical optimum. (Not used by the three point controller)
         """
 
         if self._control_task == EBaseControllerTask.SC:
@@ -146,9 +147,10 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        torque_index = [env.state_names.index("torque")]
+        speed_index = [env.state_names.index("omega")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        self.referenced_state_indices = speed_index
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
-- 
2.43.0


From 0ab957d3325dbd32547a7ad0ca4f9227a65a5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 54/95] fix: resetting a PID controller clears the error of the
 last episode

---
 .../stages/base_controllers/pid_controller.py                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index 04dd99e..4cabde3 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -42,6 +42,11 @@ class PIDController(PIController):
         self._last_error = current_error
         return pi_action + d_action
 
+    def reset(self):
+        """Reset the integrated values and the last error"""
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_current_controller(self, env, env_id, a=4):
         """Set the gains of the P-, I- and D-component for the current control.
 
-- 
2.43.0


From 06983c32ad371b07aaad3f03e262dfad0ffe949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 55/95] fix: the emf feedforward of PermExDc and ExtExDc motors
 is no longer multiplied by zero

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..6668b0f 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
-- 
2.43.0


From cac59f98f4bf547547fe62a7993a770ae03e3b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 56/95] fix: names of the SynRM inductances in the cross
 inductance reader

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 6668b0f..f90526d 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -395,8 +395,8 @@ l_prime_reader = {
     "PMSM": lambda env: np.array([0.0, 0.0]),
     "SynRM": lambda env: np.array(
         [
-            -env.physical_system.electrical_motor.motor_parameter["l_sq"],
-            env.physical_system.electrical_motor.motor_parameter["l_sd"],
+            -env.physical_system.electrical_motor.motor_parameter["l_q"],
+            env.physical_system.electrical_motor.motor_parameter["l_d"],
         ]
     ),
     "SCIM": lambda env: np.array([0, 0]),
-- 
2.43.0


From e19bb3ba3885c62fed2bfb55d9986a4cb98186ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 57/95] fix: the PermExDc current loop time constant is a
 vector as for all other motors

---
 src/gem_controllers/parameter_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index f90526d..5cf3e56 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
-- 
2.43.0


From 43be4947b287df61ad10317c31241ff33e3bd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 58/95] fix: angle advance of the abc transformation uses the
 electrical speed and the sampling time of the environment

---
 src/gem_controllers/stages/abc_transformation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..416f1ef 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -34,6 +34,7 @@ class AbcTransformation(Stage):
     def __init__(self):
         super().__init__()
         self._tau = 1e-4
+        self._p = 1
         self._advance_factor = 0.5
         self.omega_idx = None
         self.angle_idx = None
@@ -57,8 +58,8 @@ class AbcTransformation(Stage):
         return output
 
     def _angle_advance(self, state):
-        """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        """Multiply the advance factor with the electrical speed and the sampling time to calculate the advance angle"""
+        return state[self.angle_idx] + self._advance_factor * self.tau * self._p * state[self.omega_idx]
 
     def tune(self, env, env_id, **_):
         """
@@ -77,5 +78,7 @@ class AbcTransformation(Stage):
             self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
         else:
             self._advance_factor = 0.5
+        self.tau = env.physical_system.tau
         action_type, _, motor_type = gc.utils.split_env_id(env_id)
+        self._p = reader.p_reader[motor_type](env)
         self._output_len = len(reader.get_output_voltages(motor_type, action_type))
-- 
2.43.0


From 8704d54c595779a78ac6cc04c347e20dac6f97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 59/95] fix: emf feedforward of induction motors uses the
 electrical speed

---
 src/gem_controllers/stages/emf_feedforward_ind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..f822b51 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega_s = self.omega_el(state) + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +38,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), self.omega_el(state) * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From 5817a34ee32c8db2ea663c30e03c3644ff4181fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 60/95] fix: SCIM operation point selections no longer share
 one flux controller

---
 .../stages/operation_point_selection/scim_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..88e2321 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,13 +19,13 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
             max_modulation_level(float): Maximum value for the modulation controller.
             modulation_damping(float): Damping of the gain of the modulation controller.
-            psi_controller(gc.stages.BaseController): Flux controller for the i_d current.
+            psi_controller(gc.stages.BaseController): Flux controller for the i_d current (default: PI controller).
         """
 
         super().__init__(max_modulation_level, modulation_damping)
@@ -40,7 +40,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        self.psi_controller = PIController(control_task="FC") if psi_controller is None else psi_controller
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From 307f0e97a36b1a54ef604b341f29020688f03ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 61/95] fix: torque index of the PMSM mtpc lookup table is
 clipped to the last entry

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index ac7970a..238f442 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -309,7 +309,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
         return np.clip(
-            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count
+            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count - 1
         )
 
     def _select_operating_point(self, state, reference):
-- 
2.43.0


From 6dde9227a08e8c8d5e99559168f2fba1517eedf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 62/95] fix: control_environment limits every episode to
 max_episode_length steps

---
 src/gem_controllers/gem_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..53f4cfb 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -163,11 +163,11 @@ class GemController:
                 env.render()  # Plot the states
             action = self.control(state, reference)  # Calculate the action
             (state, reference), _, trun, done, _ = env.step(action)  # Simulate one step of the environment
+            current_episode_length = current_episode_length + 1
             if done or trun or current_episode_length >= max_episode_length:
                 # Reset the environment and controller
                 (state, reference), _ = env.reset()
                 self.reset()
                 current_episode_length = 0
-            current_episode_length = current_episode_length + 1
         if self.block_diagram:
             self.block_diagram.close()
-- 
2.43.0


From 64b52f49b71c31c56a9e98629f1805f197ac4a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 63/95] fix: should_plot of one controller no longer changes
 all other controllers

---
 src/gem_controllers/gem_adapter.py    | 1 +
 src/gem_controllers/gem_controller.py | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 4ed6628..36ee20c 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -54,6 +54,7 @@ class GymElectricMotorAdapter(GemController):
         """
 
         super().__init__()
+        self.should_plot = False
         self._input_stage = None
         self._output_stage = None
         assert isinstance(controller, GemController)
diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 53f4cfb..5fb576c 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -61,8 +61,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
-
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
@@ -89,6 +87,7 @@ class GemController:
             )
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
+        controller.should_plot = should_plot
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
-- 
2.43.0


From a18478e8c70bc0c9e2388b771ae2ac6ccc6431c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 64/95] fix: plot_references is passed to the reference plotter

---
 src/gem_controllers/gem_adapter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 36ee20c..dd3a074 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -95,7 +95,7 @@ class GymElectricMotorAdapter(GemController):
             self._reference_plotter.update_plots(self._controller.references)
         return action
 
-    def tune(self, env, env_id, tune_controller=True, **kwargs):
+    def tune(self, env, env_id, tune_controller=True, plot_references=True, **kwargs):
         """
         Function to set the parameters of the controller stages.
 
@@ -103,6 +103,7 @@ class GymElectricMotorAdapter(GemController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be tuned for.
             env_id(str): ID of the ElectricMotorEnvironment.
             tune_controller(bool): Flag, if the controller should be tuned.
+            plot_references(bool): Flag, if the references of the subordinate stages should be plotted.
         """
 
         self._input_stage.tune(env, env_id)
@@ -113,7 +114,7 @@ class GymElectricMotorAdapter(GemController):
         self._reference_plotter.tune(
             env,
             self._controller.referenced_states,
-            plot_references=True,
+            plot_references=plot_references,
             maximum_reference=self._controller.maximum_reference,
         )
 
-- 
2.43.0


From cf1c9448fca72cd4a2074aa7d8a7a532ed86ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 65/95] fix: GemController.make accepts environments wrapped by
 gym make

---
 src/gem_controllers/gem_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 5fb576c..2d4b2c4 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -61,6 +61,7 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
+        env = env.unwrapped
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
-- 
2.43.0


From 24db9646c03f5361ce6d49052e0033d6448f6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 66/95] fix: field oriented operation point selection reads
 limits in the order of the environment states

---
 .../foc_operation_point_selection.py                          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py b/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py
index ca605cf..72003ad 100644
--- a/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py
+++ b/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py
@@ -80,8 +80,8 @@ class FieldOrientedControllerOperationPointSelection(OperationPointSelection):
         self.mp = env.physical_system.electrical_motor.motor_parameter
         self.p = self.mp["p"]
         self.tau = env.physical_system.tau
-        self.limit = env.physical_system.limits
-        self.nominal_value = env.physical_system.nominal_state
+        self.limit = env.limits
+        self.nominal_value = env.nominal_state
         self.i_sd_limit = self.limit[self.i_sd_idx] * (1 - current_safety_margin)
         self.i_sq_limit = self.limit[self.i_sq_idx] * (1 - current_safety_margin)
 
-- 
2.43.0


From 643a9b67040de28053a87b068a652e150a5e027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 67/95] fix: the current controller returns the clipped
 voltages, so actions stay in the action space

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..f9f8f8a 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From 5985f5167bdc0dd0540cf916aa6070bffe9c7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:18 +0000
Subject: [PATCH 68/95] fix: look up the MTPF limit by the number of tabulated
 flux values

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 238f442..9708f80 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -302,9 +302,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        # flux values that are not reachable within the current limits have no entry in the lookup table
+        psi_count = len(self.mtpf) // 2
+        return np.clip(int((psi_count - 1) - round(psi / self.psi_max_mtpf * (psi_count - 1))), 0, psi_count - 1)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
-- 
2.43.0


From db228b40fb679b66d05c16ced6865ffff381a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 69/95] fix: initialise the stages of a controller when it is
 made

---
 src/gem_controllers/gem_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 2d4b2c4..b94ccb9 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -92,6 +92,7 @@ class GemController:
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
+        controller.reset()
 
         if block_diagram:
             controller.build_block_diagram(env_id, save_block_diagram_as)
-- 
2.43.0


From 1ccf8968648379d60d2a2aeac739e724b126d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 70/95] fix: keep the clipping stage given to the torque
 controller

---
 src/gem_controllers/torque_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/torque_controller.py b/src/gem_controllers/torque_controller.py
index c063cc8..bda66a9 100644
--- a/src/gem_controllers/torque_controller.py
+++ b/src/gem_controllers/torque_controller.py
@@ -86,6 +86,7 @@ class TorqueController(gc.GemController):
         self._current_controller = current_controller
         if env_id is not None and current_controller is None:
             self._current_controller = gc.PICurrentController(env, env_id)
+        self._clipping_stage = clipping_stage
         if env_id is not None and clipping_stage is None:
             if gc.utils.get_motor_type(env_id) in gc.parameter_reader.dc_motors:
                 self._clipping_stage = gc.stages.clipping_stages.AbsoluteClippingStage("TC")
-- 
2.43.0


From a7c2d667438ce526e4e5b8025d243fbaeda02f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 71/95] fix: balance the braces of the maximum reference labels

---
 src/gem_controllers/reference_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 76c892c..61753bb 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -50,7 +50,7 @@ class ReferencePlotter:
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_\mathrm{ max}}$", i_e="$i^*_{e}$$_\mathrm{ max}}$"
+                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_{\mathrm{ max}}$", i_e="$i^*_{e}$$_{\mathrm{ max}}$"
                     )
                     plot._axis.axhline(self._maximum_reference[plot.state][0], c="g", linewidth=0.75, linestyle="--")
                     plot._axis.axhline(self._maximum_reference[plot.state][1], c="g", linewidth=0.75, linestyle="--")
-- 
2.43.0


From 112fb453cf13f8fc10c94d66b62f42df363b5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 72/95] fix: angle advance of the controllers accounts for the
 dead time of the physical system

---
 src/gem_controllers/stages/abc_transformation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 416f1ef..8a020c0 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -74,10 +74,8 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
-        if hasattr(env.physical_system.converter, "dead_time"):
-            self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
-        else:
-            self._advance_factor = 0.5
+        # If dead time has been added to the system increase the angle advance by the amount of dead time steps
+        self._advance_factor = 0.5 + getattr(env.physical_system, "dead_time", 0)
         self.tau = env.physical_system.tau
         action_type, _, motor_type = gc.utils.split_env_id(env_id)
         self._p = reader.p_reader[motor_type](env)
-- 
2.43.0


From c3b52f46104c24930b48335641bb47235ebf785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 73/95] fix: read the torque limit of the induction motor at
 the flux it was tabulated for

---
 .../stages/operation_point_selection/scim_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 88e2321..9c455af 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -174,7 +174,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         psi_opt = min(psi_opt, psi_max)
 
         # Limit the torque
-        t_max = self.t_max_psi[0, self.psi_count - self._get_t_max(psi_opt)]
+        t_max = self.t_max_psi[0, self.psi_count - 1 - self._get_t_max(psi_opt)]
         torque = np.clip(reference[0], -np.abs(t_max), np.abs(t_max))
 
         # Control the i_sd current with a PI-Controller
-- 
2.43.0


From 59b67be0657915c441270385be4f376961f0ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 74/95] fix: current limit of the PermExDc operation point from
 the voltage equation

---
 .../stages/operation_point_selection/permex_dc_ops.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index 8a38ef1..15f7d7a 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -71,7 +71,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
 
     def _max_current_per_speed(self, state):
         """Calculate the maximum current for a given speed."""
-        return self._voltage_limit / (self._resistance + self._magnetic_flux * abs(state[self._omega_index]))
+        return (self._voltage_limit - self._magnetic_flux * abs(state[self._omega_index])) / self._resistance
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
-- 
2.43.0


From 124db44f11c818b35d359dc96f7d4bc529046366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 75/95] fix: optimal flux of the induction motor belongs to the
 loss minimum

---
 .../stages/operation_point_selection/scim_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 9c455af..c0c2cf2 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -59,7 +59,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 )  # Calculate losses
 
                 i_idx = np.argmin(pv)  # Minimize losses
-                i_sd_opt = i_sd[i_idx]
+                i_sd_opt = i_sd[1:][i_idx]
                 i_sq_opt = i_sq[i_idx]
             else:
                 i_sq_opt = 0
-- 
2.43.0


From 44b71ba79dabf4529779aa59238ac449648daa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:14 +0000
Subject: [PATCH 76/95] fix: feedforward of the EESM decouples the d axis and
 the excitation winding

---
 src/gem_controllers/parameter_reader.py            | 4 +---
 src/gem_controllers/stages/emf_feedforward_eesm.py | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 5cf3e56..27f7f54 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -145,9 +145,7 @@ l_emf_reader = {
         [
             -env.physical_system.electrical_motor.motor_parameter["l_q"],
             env.physical_system.electrical_motor.motor_parameter["l_d"],
-            env.physical_system.electrical_motor.motor_parameter["l_m"]
-            * env.physical_system.electrical_motor.motor_parameter["l_q"]
-            / env.physical_system.electrical_motor.motor_parameter["l_d"],
+            0.0,
         ]
     ),
 }
diff --git a/src/gem_controllers/stages/emf_feedforward_eesm.py b/src/gem_controllers/stages/emf_feedforward_eesm.py
index 83f1013..8090ef5 100644
--- a/src/gem_controllers/stages/emf_feedforward_eesm.py
+++ b/src/gem_controllers/stages/emf_feedforward_eesm.py
@@ -32,7 +32,7 @@ class EMFFeedforwardEESM(EMFFeedforward):
         self.psi = np.array([0, self._l_m * state[self._i_e_idx], 0])
         action = super().__call__(state, reference)
         action = action + self._decoupling_params * state[self._currents_idx]
-        action = action + self._action_decoupling * action[self._action_idx]
+        action = action + self._action_decoupling * reference[self._action_idx]
         return action
 
     def tune(self, env, env_id, **_):
@@ -53,7 +53,7 @@ class EMFFeedforwardEESM(EMFFeedforward):
 
         self._l_m = l_m
         self._i_e_idx = env.state_names.index("i_e")
-        self._decoupling_params = np.array([-l_m * r_e / l_e, 0, -l_m * r_s / l_d])
-        self._action_decoupling = np.array([l_m / l_e, 0, l_m / l_d])
+        self._decoupling_params = np.array([-l_m * r_e / l_e, 0, -1.5 * l_m * r_s / l_d])
+        self._action_decoupling = np.array([l_m / l_e, 0, 1.5 * l_m / l_d])
         self._currents_idx = [env.state_names.index("i_e"), 0, env.state_names.index("i_sd")]
         self._action_idx = [2, 1, 0]
-- 
2.43.0


From 0a8331b7ffce41768081d332044223afa1d14745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:38 +0000
Subject: [PATCH 77/95] fix: scale plots with a single line and states without
 reference to their data

---
 .../visualization/motor_dashboard_plots/base_plots.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index e203618..73ff647 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -188,10 +188,11 @@ class TimePlot(MotorDashboardPlot):
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
             # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
-            if np.isnan(self._y_data[0]).all() or np.isnan(self._y_data[1]).all():
+            y_data = [data for data in self._y_data if not np.isnan(data).all()]
+            if len(y_data) == 0:
                 return
-            y_min = min(np.nanmin(self._y_data[0]), np.nanmin(self._y_data[1]))
-            y_max = max(np.nanmax(self._y_data[0]), np.nanmax(self._y_data[1]))
+            y_min = min(np.nanmin(data) for data in y_data)
+            y_max = max(np.nanmax(data) for data in y_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
-- 
2.43.0


From cbdc41bf1afc6bc8c63a7e8ee3349e9e522eecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 78/95] fix: restart the cumulative constraint violation plot
 when its figure is reset

---
 .../cumulative_constraint_violation_plot.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 4a4a930..c3c0d36 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -18,6 +18,8 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def reset_data(self):
         super().reset_data()
+        self._x_data = [0]
+        self._no_of_violations = 0
         self._violations = [0]
 
     def on_step_end(self, k, state, reference, reward, terminated):
-- 
2.43.0


From 9ac529dea8fd84f01689f129ba8df5a3390b5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:05 +0000
Subject: [PATCH 79/95] fix: keep the mean rewards of episodes before the
 figure exists and handle episodes without steps

---
 .../mean_episode_reward_plot.py                   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ac6c471..e724d19 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -15,12 +15,17 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._episode_length = 0
         self._label = "Mean Reward Per Step"
         self._reward_range = [np.inf, -np.inf]
+        self._y_data.append(self._reward_data)
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._reward_data = []
-        self._y_data.append(self._reward_data)
-        self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
+        self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
+
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        # Also an episode that is not displayed (e.g. started before reset_data) must not enter the next mean
+        self._reward_sum = 0
+        self._episode_length = 0
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
@@ -31,9 +36,11 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         super().reset_data()
         self._reward_data = []
         self._reward_range = [np.inf, -np.inf]
+        self._y_data.append(self._reward_data)
 
     def _set_y_data(self):
-        mean_reward = self._reward_sum / self._episode_length
+        # Episodes without any step have no mean reward
+        mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
         if self._reward_range[0] > mean_reward:
             self._reward_range[0] = mean_reward
-- 
2.43.0


From 6e6f71224194d44fd25560c4bc184f795544bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 80/95] fix: keep drawing rewards after the figures are reset

---
 .../visualization/motor_dashboard_plots/reward_plot.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
index 9bf3601..f274f6a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
@@ -33,6 +33,7 @@ class RewardPlot(TimePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
+        self._y_data = [self._reward_data]
 
     def on_step_end(self, k, state, reference, reward, terminated):
         idx = self.data_idx
-- 
2.43.0


From ade0f5a192c85d9475c6e24c5e097ccacbde63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 81/95] fix: drop the length of an episode that began before
 the figures were reset

---
 .../motor_dashboard_plots/episode_length_plot.py             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index a2ed136..4538419 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -21,6 +21,11 @@ class EpisodeLengthPlot(EpisodePlot):
         super().initialize(axis)
         self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        # Also the length of an episode that is not displayed (e.g. started before reset_data) has to be dropped
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         self._episode_length = k
 
-- 
2.43.0


From 5b3609bc7a9378267d29d233eb4c15955ecabf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 82/95] fix: complete undefined current limits and nominal
 currents of three-phase motors

---
 .../electric_motors/doubly_fed_induction_motor.py   | 13 +++++++------
 .../squirrel_cage_induction_motor.py                | 13 +++++++------
 .../electric_motors/synchronous_motor.py            | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index c426098..eea8081 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -138,18 +138,19 @@ class DoublyFedInductionMotor(InductionMotor):
 
         voltage_limit = 0.5 * self._limits["u"]
         voltage_nominal = 0.5 * self._nominal_values["u"]
-        limits_agenda = {}
-        nominal_agenda = {}
+        # An undefined (zero) current limit is the current at standstill, an undefined nominal current is the limit
+        current_limit = self._limits.get("i", None) or voltage_limit / self._motor_parameter["r_r"]
+        current_nominal = self._nominal_values.get("i", None) or current_limit
+        limits_agenda = {"i": current_limit}
+        nominal_agenda = {"i": current_nominal}
         for u, i in zip(
             self.IO_VOLTAGES + self.ROTOR_VOLTAGES,
             self.IO_CURRENTS + self.ROTOR_CURRENTS,
         ):
             limits_agenda[u] = voltage_limit
             nominal_agenda[u] = voltage_nominal
-            limits_agenda[i] = self._limits.get("i", None) or self._limits[u] / self._motor_parameter["r_r"]
-            nominal_agenda[i] = (
-                self._nominal_values.get("i", None) or self._nominal_values[u] / self._motor_parameter["r_r"]
-            )
+            limits_agenda[i] = current_limit
+            nominal_agenda[i] = current_nominal
         super()._update_limits(limits_agenda, nominal_agenda)
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 313fec9..08e423f 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -132,15 +132,16 @@ class SquirrelCageInductionMotor(InductionMotor):
         # Docstring of superclass
         voltage_limit = 0.5 * self._limits["u"]
         voltage_nominal = 0.5 * self._nominal_values["u"]
-        limits_agenda = {}
-        nominal_agenda = {}
+        # An undefined (zero) current limit is the current at standstill, an undefined nominal current is the limit
+        current_limit = self._limits.get("i", None) or voltage_limit / self._motor_parameter["r_s"]
+        current_nominal = self._nominal_values.get("i", None) or current_limit
+        limits_agenda = {"i": current_limit}
+        nominal_agenda = {"i": current_nominal}
         for u, i in zip(self.IO_VOLTAGES, self.IO_CURRENTS):
             limits_agenda[u] = voltage_limit
             nominal_agenda[u] = voltage_nominal
-            limits_agenda[i] = self._limits.get("i", None) or self._limits[u] / self._motor_parameter["r_s"]
-            nominal_agenda[i] = (
-                self._nominal_values.get("i", None) or self._nominal_values[u] / self._motor_parameter["r_s"]
-            )
+            limits_agenda[i] = current_limit
+            nominal_agenda[i] = current_nominal
         super()._update_limits(limits_agenda, nominal_agenda)
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index 4e9924b..49a6233 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -179,13 +179,14 @@ class SynchronousMotor(ThreePhaseMotor):
         voltage_limit = 0.5 * self._limits["u"]
         voltage_nominal = 0.5 * self._nominal_values["u"]
 
-        limits_agenda = {}
-        nominal_agenda = {}
+        # An undefined (zero) current limit is the current at standstill, an undefined nominal current is the limit
+        current_limit = self._limits.get("i", None) or voltage_limit / self._motor_parameter["r_s"]
+        current_nominal = self._nominal_values.get("i", None) or current_limit
+        limits_agenda = {"i": current_limit}
+        nominal_agenda = {"i": current_nominal}
         for u, i in zip(self.IO_VOLTAGES, self.IO_CURRENTS):
             limits_agenda[u] = voltage_limit
             nominal_agenda[u] = voltage_nominal
-            limits_agenda[i] = self._limits.get("i", None) or self._limits[u] / self._motor_parameter["r_s"]
-            nominal_agenda[i] = (
-                self._nominal_values.get("i", None) or self._nominal_values[u] / self._motor_parameter["r_s"]
-            )
+            limits_agenda[i] = current_limit
+            nominal_agenda[i] = current_nominal
         super()._update_limits(limits_agenda, nominal_agenda)
-- 
2.43.0


From 96a1066897b392a1acc1487a915d5144d3b44656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:10 +0000
Subject: [PATCH 83/95] fix: derive the torque limit of DC motors after their
 undefined current limits are completed

---
 .../physical_systems/electric_motors/dc_motor.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
index 874f0e4..ef47f89 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
@@ -155,6 +155,6 @@ class DcMotor(ElectricMotor):
         if limits_d is None:
             limits_d = dict()
 
-        # torque is replaced the same way for all DC motors
-        limits_d.update(dict(torque=self.torque([self._limits[state] for state in self.CURRENTS])))
         super()._update_limits(limits_d)
+        # torque is replaced the same way for all DC motors
+        super()._update_limits(dict(torque=self.torque([self._limits[state] for state in self.CURRENTS])))
-- 
2.43.0


From 5da95a8958a0a9a0227fc93aada0366f2e591548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:44 +0000
Subject: [PATCH 84/95] fix: analytical operation points of the PMSM have the
 requested flux (l_d in the linear coefficient)

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 9708f80..c7f956b 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -272,7 +272,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
-- 
2.43.0


From 0781b080be7af1e0f51c1c154ff661d477db156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:57 +0000
Subject: [PATCH 85/95] fix: analytical operation points of the EESM have the
 requested flux (l_d in the linear coefficient, factor 2 of the torque)

---
 .../stages/operation_point_selection/eesm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 5217547..30970e4 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -100,9 +100,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
-- 
2.43.0


From 4f63a7725be0341ed830f0105d60024835fd8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 86/95] fix: stacked dead times report their total delay, the
 dq actions are advanced by all of them

---
 .../physical_system_wrappers/dead_time_processor.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 663ea3a..4469f17 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -21,8 +21,8 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
 
     @property
     def dead_time(self):
-        """int: The number of delayed steps."""
-        return self._steps
+        """int: The number of delayed steps, including those of the inner physical system."""
+        return self._steps + getattr(self._physical_system, "dead_time", 0)
 
     def __init__(self, steps=1, reset_action=None, physical_system=None):
         """Args:
-- 
2.43.0


From 99e44b5fe2d0e50ddb4fee03a1cfc5d1fc650854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:09 +0000
Subject: [PATCH 87/95] fix: torque limit of the EESM operation points is the
 one at the limited flux (no NaN current references in field weakening)

---
 .../stages/operation_point_selection/eesm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 30970e4..aacf3fa 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -251,7 +251,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         psi = np.clip(psi_opt, 0, psi_max)
 
-        t_max = self.t_max_psi(psi_opt)
+        t_max = self.t_max_psi(np.clip(psi, 0, self.psi_max))
         t_ref_clip = np.clip(t_ref_clip, 0, t_max)
 
         t_idx = self._get_t_idx(t_ref_clip)
-- 
2.43.0


From 0123284adbe10e1a59d2c6609c8ad8771ac58271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:22 +0000
Subject: [PATCH 88/95] fix: selected currents of the SynRM have the sign of
 the requested torque

---
 .../stages/operation_point_selection/pmsm_ops.py         | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index c7f956b..5ba3ed5 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -348,22 +348,19 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             if self.i_d_inter[t_idx, psi_idx] <= self.mtpf[psi_max_idx, 2]:
                 i_d = self.mtpf[psi_max_idx, 2]
-                i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
+                i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
                 reference = np.sign(reference[0]) * t_max
             else:
                 i_d = self.i_d_inter[t_idx, psi_idx]
                 i_q = self.i_q_inter[t_idx, psi_idx]
                 if i_d > self.mtpc[psi_idx_, 1]:
                     i_d = self.mtpc[psi_idx_, 1]
-                    i_q = np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
+                    i_q = self.mtpc[psi_idx_, 2]
 
         # ensure that the mtpf characteristic curve is observed
         if i_d < self.mtpf[psi_max_idx, 2]:
             i_d = self.mtpf[psi_max_idx, 2]
-            i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
-
-        # invert the i_q if necessary
-        i_q = self.invert * i_q
+            i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From 9d01f7a01610027f00868e6900f79dc392de3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 89/95] fix: operation points of a PMSM with equal inductances
 can be tuned

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 5ba3ed5..cbfd918 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -71,13 +71,13 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 else:
                     i_d = i_d_(i_q, t, self)
 
-            # Different current vectors are determined for each reference and the smallest magnitude is selected
-            i = np.power(i_d, 2) + np.power(i_q, 2)
-            min_idx = np.where(i == np.amin(i))[0][0]
             if self.l_d == self.l_q:
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
+                # Different current vectors are determined for each reference and the smallest magnitude is selected
+                i = np.power(i_d, 2) + np.power(i_q, 2)
+                min_idx = np.where(i == np.amin(i))[0][0]
                 i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
-- 
2.43.0


From d1a52aaff6714c483cc0076b4bbd43f8fd776535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:52 +0000
Subject: [PATCH 90/95] fix: operation points of a PMSM with l_d > l_q have the
 sign of the requested torque

---
 .../stages/operation_point_selection/pmsm_ops.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index cbfd918..91e77aa 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -78,7 +78,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 # Different current vectors are determined for each reference and the smallest magnitude is selected
                 i = np.power(i_d, 2) + np.power(i_q, 2)
                 min_idx = np.where(i == np.amin(i))[0][0]
-                i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
+                # Both signs of i_q belong to the same magnitude if there is no permanent magnet flux
+                i_q_ret = i_q[min_idx] if self.psi_p != 0 else np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
             # The flow is finally calculated from the currents
-- 
2.43.0


From 7ce4e7f34b7f12585794c774d1723c41b530dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:48 +0000
Subject: [PATCH 91/95] fix: a configured mean of zero of the gaussian
 initialisation is used

---
 .../physical_systems/electric_motors/electric_motor.py         | 3 ++-
 .../physical_systems/mechanical_loads/mechanical_load.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 7fa4668..8356806 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -250,7 +250,8 @@ class ElectricMotor(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                middle = (upper_bound - lower_bound) / 2 + lower_bound
+                mue = middle if random_params[0] is None else random_params[0]
                 sigma = random_params[1] or 1
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
                 initial_value = truncnorm.rvs(
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index bb7c89c..4718ea5 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -140,7 +140,8 @@ class MechanicalLoad(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                middle = (upper_bound - lower_bound) / 2 + lower_bound
+                mue = middle if random_params[0] is None else random_params[0]
                 sigma = random_params[1] or 1
                 a = (lower_bound - mue) / sigma
                 b = (upper_bound - mue) / sigma
-- 
2.43.0


From 1d06c50e777b3801f7223796b8602ebf1619b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:07 +0000
Subject: [PATCH 92/95] fix: periodic references on one-sided ranges are
 shifted instead of cut off

---
 .../reference_generators/sawtooth_reference_generator.py        | 2 +-
 .../reference_generators/sinusoidal_reference_generator.py      | 2 +-
 .../reference_generators/triangle_reference_generator.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index 0a6856a..a7740d1 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -44,7 +44,7 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index 10afba4..ce309ca 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -47,7 +47,7 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 32fb3b3..98181d4 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -50,7 +50,7 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
-- 
2.43.0


From b2afcd5243ca07f9482ac6250d091b64400be4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:22 +0000
Subject: [PATCH 93/95] fix: the state observer reports the observed states and
 references of the last observation

---
 src/gym_electric_motor/core.py               | 2 ++
 src/gym_electric_motor/observers/observer.py | 9 +++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 4822bfe..28cad70 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -312,6 +312,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         state = self._physical_system.reset()
         reference, next_ref, _ = self.reference_generator.reset(state)
         self._reward_function.reset(state, reference)
+        self.current_state = state
+        self.current_observation = (state, next_ref)
         self._call_callbacks("on_reset_end", state, reference)
 
         observation = (state[self.state_filter], next_ref)
diff --git a/src/gym_electric_motor/observers/observer.py b/src/gym_electric_motor/observers/observer.py
index eb489ae..6b61ecc 100644
--- a/src/gym_electric_motor/observers/observer.py
+++ b/src/gym_electric_motor/observers/observer.py
@@ -43,11 +43,12 @@ class StateObserver(Observer):
         state_names = self.state_names
 
         if state in state_names:
-            state_value = self.env.current_state[state_names.index(state)]
-            if state_value is not None:
-                return (state, state_value)
-            else:
+            env = self.env.unwrapped
+            if env.current_state is None:
                 raise ValueError(f"State '{state}' is None")
+            full_state, next_reference = env.current_observation
+            state_values = [*full_state[env.state_filter], *next_reference]
+            return (state, state_values[state_names.index(state)])
         else:
             raise ValueError(f"State '{state}' not found in state_names, allowed states are {state_names}")
 
-- 
2.43.0


From 4069503159987eee8574c6106d7077a769200806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:36 +0000
Subject: [PATCH 94/95] fix: the console printer shows the finished episode,
 not the first steps of the next

---
 .../visualization/console_printer.py               | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/visualization/console_printer.py b/src/gym_electric_motor/visualization/console_printer.py
index df1d756..526b3a5 100644
--- a/src/gym_electric_motor/visualization/console_printer.py
+++ b/src/gym_electric_motor/visualization/console_printer.py
@@ -36,12 +36,18 @@ class ConsolePrinter(ElectricMotorVisualization):
         self._cum_reward = 0
         self._done = False
         self._episode = 0
+        self._last_episode = (0, 0, False)
         np.set_printoptions(formatter={"float": "{:9.3f}".format})
         self._reset = False
 
     def on_reset_begin(self):
         """Gets called on environment reset. Handles internal value reset and External reset printing"""
         self._reset = True
+        # The episode that ends here is printed at the next rendering, possibly after steps of the new episode
+        self._last_episode = (self._k, self._cum_reward, self._done)
+        self._k = 0
+        self._cum_reward = 0
+        self._done = False
 
     def on_reset_end(self, state, reference):
         self._reference = reference
@@ -68,13 +74,13 @@ class ConsolePrinter(ElectricMotorVisualization):
     def render(self):
         if self._print_freq > 0:
             if self._reset:
+                k, cum_reward, done = self._last_episode
                 print(
                     f"\nEpisode {self._episode} ",
-                    "Constraint Violation! " if self._done else "External Reset. ",
-                    f"Number of steps: {self._k: 8d} ",
-                    f"Cumulative Reward: {self._cum_reward:7.3f}\n",
+                    "Constraint Violation! " if done else "External Reset. ",
+                    f"Number of steps: {k: 8d} ",
+                    f"Cumulative Reward: {cum_reward:7.3f}\n",
                 )
-                self._cum_reward = 0
                 self._reset = False
                 self._episode += 1
 
-- 
2.43.0


From 25d0906616ba5f2429bf6d5cf2cee7e40e637e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:59 +0000
Subject: [PATCH 95/95] fix: documented components, references and rotor
 inertias are those of the environments and motors

---
 .../gym_dcm/permex_dc_motor_env/cont_tc_permex_dc_env.py    | 2 +-
 .../gym_dcm/series_dc_motor_env/cont_cc_series_dc_env.py    | 2 +-
 .../gym_dcm/series_dc_motor_env/cont_sc_series_dc_env.py    | 2 +-
 .../gym_dcm/series_dc_motor_env/cont_tc_series_dc_env.py    | 2 +-
 .../envs/gym_dcm/shunt_dc_motor_env/cont_cc_shunt_dc_env.py | 4 ++--
 .../envs/gym_dcm/shunt_dc_motor_env/cont_sc_shunt_dc_env.py | 2 +-
 .../envs/gym_dcm/shunt_dc_motor_env/cont_tc_shunt_dc_env.py | 2 +-
 src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py    | 6 +++---
 .../doubly_fed_induction_motor_envs/cont_cc_dfim_env.py     | 2 +-
 .../doubly_fed_induction_motor_envs/cont_sc_dfim_env.py     | 2 +-
 .../doubly_fed_induction_motor_envs/cont_tc_dfim_env.py     | 2 +-
 .../finite_cc_scim_env.py                                   | 2 +-
 .../finite_sc_scim_env.py                                   | 2 +-
 .../finite_tc_scim_env.py                                   | 2 +-
 .../physical_systems/electric_motors/dc_motor.py            | 2 +-
 .../physical_systems/electric_motors/dc_series_motor.py     | 2 +-
 .../physical_systems/electric_motors/dc_shunt_motor.py      | 2 +-
 17 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/gym_electric_motor/envs/gym_dcm/permex_dc_motor_env/cont_tc_permex_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/permex_dc_motor_env/cont_tc_permex_dc_env.py
index d5458f4..bbbfc7e 100644
--- a/src/gym_electric_motor/envs/gym_dcm/permex_dc_motor_env/cont_tc_permex_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/permex_dc_motor_env/cont_tc_permex_dc_env.py
@@ -24,7 +24,7 @@ class ContTorqueControlDcPermanentlyExcitedMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.FiniteFourQuadrantConverter`
+        - Converter: :py:class:`.ContFourQuadrantConverter`
         - Motor: :py:class:`.DcPermanentlyExcitedMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_cc_series_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_cc_series_dc_env.py
index f704c3e..d367f4a 100644
--- a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_cc_series_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_cc_series_dc_env.py
@@ -22,7 +22,7 @@ class ContCurrentControlDcSeriesMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContinuousFourQuadrantConverter`
+        - Converter: :py:class:`.ContFourQuadrantConverter`
         - Motor: :py:class:`.DcSeriesMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_sc_series_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_sc_series_dc_env.py
index 0af911f..344a670 100644
--- a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_sc_series_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_sc_series_dc_env.py
@@ -22,7 +22,7 @@ class ContSpeedControlDcSeriesMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContinuousFourQuadrantConverter`
+        - Converter: :py:class:`.ContFourQuadrantConverter`
         - Motor: :py:class:`.DcSeriesMotor`
         - Load: :py:class:`.PolynomialStaticLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_tc_series_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_tc_series_dc_env.py
index b9b6ba2..acf371d 100644
--- a/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_tc_series_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/series_dc_motor_env/cont_tc_series_dc_env.py
@@ -22,7 +22,7 @@ class ContTorqueControlDcSeriesMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContinuousFourQuadrantConverter`
+        - Converter: :py:class:`.ContFourQuadrantConverter`
         - Motor: :py:class:`.DcSeriesMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_cc_shunt_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_cc_shunt_dc_env.py
index fbc460b..5dd56dd 100644
--- a/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_cc_shunt_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_cc_shunt_dc_env.py
@@ -23,7 +23,7 @@ class ContCurrentControlDcShuntMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContinuousFourQuadrantConverter`
+        - Converter: :py:class:`.ContFourQuadrantConverter`
         - Motor: :py:class:`.DcShuntMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
@@ -40,7 +40,7 @@ class ContCurrentControlDcShuntMotorEnv(ElectricMotorEnvironment):
         ``['omega' , 'torque', 'i_a', 'i_e', 'u', 'u_sup']``
 
     Reference Variables:
-        ``['torque']``
+        ``['i_a']``
 
     Control Cycle Time:
         tau = 1e-4 seconds
diff --git a/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_sc_shunt_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_sc_shunt_dc_env.py
index 657a709..9b86cbb 100644
--- a/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_sc_shunt_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_sc_shunt_dc_env.py
@@ -23,7 +23,7 @@ class ContSpeedControlDcShuntMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContinuousFourQuadrantConverter`
+        - Converter: :py:class:`.ContFourQuadrantConverter`
         - Motor: :py:class:`.DcShuntMotor`
         - Load: :py:class:`.PolynomialStaticLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_tc_shunt_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_tc_shunt_dc_env.py
index d254c24..588fd17 100644
--- a/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_tc_shunt_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/shunt_dc_motor_env/cont_tc_shunt_dc_env.py
@@ -23,7 +23,7 @@ class ContTorqueControlDcShuntMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContinuousFourQuadrantConverter`
+        - Converter: :py:class:`.ContFourQuadrantConverter`
         - Motor: :py:class:`.DcShuntMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
index dc8638e..c1df7bc 100644
--- a/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
@@ -33,13 +33,13 @@ class ContCurrentControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviro
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.ScipyOdeSolver`
 
-        - Reference Generator: :py:class:`.WienerProcessReferenceGenerator` *Reference Quantity:* ``'i_sd', 'i_sq``
+        - Reference Generator: :py:class:`.WienerProcessReferenceGenerator` *Reference Quantities:* ``'i_sd', 'i_sq', 'i_e'``
 
-        - Reward Function: :py:class:`.WeightedSumOfErrors` reward_weights: ``'i_sd' = 0.5, 'i_sq' = 0.5``
+        - Reward Function: :py:class:`.WeightedSumOfErrors` reward_weights: ``'i_sd' = 1/3, 'i_sq' = 1/3, 'i_e' = 1/3``
 
         - Visualization: :py:class:`.MotorDashboard` current and action plots
 
-        - Constraints: :py:class:`.SquaredConstraint` on the currents  ``'i_sd', 'i_sq'``
+        - Constraints: :py:class:`.SquaredConstraint` on the currents  ``'i_sd', 'i_sq'``, :py:class:`.LimitConstraint` on the current  ``'i_e'``
 
     State Variables:
         ``['omega' , 'torque', 'i_sd', 'i_sq', 'i_a', 'i_b', 'i_c', 'i_e', 'u_sd', 'u_sq', 'u_a', 'u_b', 'u_c', 'u_e', 'u_sup']``
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
index acecb29..2b1f4f2 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
@@ -28,7 +28,7 @@ class ContCurrentControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContB6BridgeConverter`
+        - Converter: :py:class:`.ContMultiConverter` ( 2 x :py:class:`.ContB6BridgeConverter`)
         - Motor: :py:class:`.DoublyFedInductionMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
index e382aaa..f5582e7 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
@@ -25,7 +25,7 @@ class ContSpeedControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContB6BridgeConverter`
+        - Converter: :py:class:`.ContMultiConverter` ( 2 x :py:class:`.ContB6BridgeConverter`)
         - Motor: :py:class:`.DoublyFedInductionMotor`
         - Load: :py:class:`.PolynomialStaticLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
index 450b8b1..0b85917 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
@@ -28,7 +28,7 @@ class ContTorqueControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContB6BridgeConverter`
+        - Converter: :py:class:`.ContMultiConverter` ( 2 x :py:class:`.ContB6BridgeConverter`)
         - Motor: :py:class:`.DoublyFedInductionMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py
index d30df36..c8fa03a 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_cc_scim_env.py
@@ -28,7 +28,7 @@ class FiniteCurrentControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContB6BridgeConverter`
+        - Converter: :py:class:`.FiniteB6BridgeConverter`
         - Motor: :py:class:`.SquirrelCageInductionMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py
index 1e0a509..b0d0110 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_sc_scim_env.py
@@ -25,7 +25,7 @@ class FiniteSpeedControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment):
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContB6BridgeConverter`
+        - Converter: :py:class:`.FiniteB6BridgeConverter`
         - Motor: :py:class:`.SquirrelCageInductionMotor`
         - Load: :py:class:`.PolynomialStaticLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py
index e2c28d3..e57a462 100644
--- a/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/squirrel_cage_induction_motor_envs/finite_tc_scim_env.py
@@ -25,7 +25,7 @@ class FiniteTorqueControlSquirrelCageInductionMotorEnv(ElectricMotorEnvironment)
 
     Default Components:
         - Supply: :py:class:`.IdealVoltageSupply`
-        - Converter: :py:class:`.ContB6BridgeConverter`
+        - Converter: :py:class:`.FiniteB6BridgeConverter`
         - Motor: :py:class:`.SquirrelCageInductionMotor`
         - Load: :py:class:`.ConstantSpeedLoad`
         - Ode-Solver: :py:class:`.EulerSolver`
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
index ef47f89..950c2d3 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
@@ -19,7 +19,7 @@ class DcMotor(ElectricMotor):
     l_a                    H           19e-6         Armature circuit inductance
     l_e                    H           5.4e-3        Exciting circuit inductance
     l_e_prime              H           1.7e-3        Effective excitation inductance
-    j_rotor                kg/m^2      0.025         Moment of inertia of the rotor
+    j_rotor                kg/m^2      0.0025        Moment of inertia of the rotor
     =====================  ==========  ============= ===========================================
 
     ..note ::
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py
index bb9dbfb..9c2b23d 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_series_motor.py
@@ -14,7 +14,7 @@ class DcSeriesMotor(DcMotor):
     l_a                    H           19e-6         Armature circuit inductance
     l_e                    H           5.4e-3        Exciting circuit inductance
     l_e_prime              H           1.7e-3        Effective excitation inductance
-    j_rotor                kg/m^2      0.025         Moment of inertia of the rotor
+    j_rotor                kg/m^2      0.0025        Moment of inertia of the rotor
     =====================  ==========  ============= ===========================================
 
     =============== ====== =============================================
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_shunt_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_shunt_motor.py
index edc41d9..829379a 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_shunt_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_shunt_motor.py
@@ -14,7 +14,7 @@ class DcShuntMotor(DcMotor):
     l_a                    H           19e-6         Armature circuit inductance
     l_e                    H           5.4e-3        Exciting circuit inductance
     l_e_prime              H           1.7e-3        Effective excitation inductance
-    j_rotor                kg/m^2      0.025         Moment of inertia of the rotor
+    j_rotor                kg/m^2      0.0025        Moment of inertia of the rotor
     =====================  ==========  ============= ===========================================
 
     =============== ====== =============================================
-- 
2.43.0

