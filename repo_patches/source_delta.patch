From f5eecdb675007085c73bca93e294130af03682e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 01/14] fix: count the hot-side fouling resistance once in
 UAOverall

The hot-side fouling resistance overwrote the cold-side one and was then added twice.
---
 openconcept/thermal/heat_exchanger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 9163dbf..1ecd878 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -907,14 +907,14 @@ class UAOverall(ExplicitComponent):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfc)
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfh)
 
     def compute_partials(self, inputs, J):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
 
         dRcdh = -1 / inputs["h_conv_cold"] ** 2 / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         dRcdA = -1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] ** 2 / inputs["eta_overall_cold"]
@@ -934,12 +934,12 @@ class UAOverall(ExplicitComponent):
             -self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"] ** 2
         )
 
-        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdh)
-        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdA + dRfcdA)
-        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdeta + dRfcdeta)
-        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdh)
-        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdA + dRfhdA)
-        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdeta + dRfhdeta)
+        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdh)
+        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdA + dRfcdA)
+        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdeta + dRfcdeta)
+        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdh)
+        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdA + dRfhdA)
+        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdeta + dRfhdeta)
 
 
 class NTUMethod(ExplicitComponent):
-- 
2.43.0


From 5006f23480ab7ac3994fb65d6d06c7d13c23ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 02/14] fix: zero the VerticalAcceleration partials where the
 acceleration is clipped

---
 openconcept/mission/phases.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 057a719..c69171e 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -416,12 +416,18 @@ class VerticalAcceleration(ExplicitComponent):
         cosg = inputs["fltcond|cosgamma"]
         sing = inputs["fltcond|singamma"]
 
-        J["accel_vert", "thrust"] = sing / m
-        J["accel_vert", "drag"] = -sing / m
-        J["accel_vert", "lift"] = cosg / m
-        J["accel_vert", "fltcond|singamma"] = (inputs["thrust"] - inputs["drag"]) / m
-        J["accel_vert", "fltcond|cosgamma"] = inputs["lift"] / m
-        J["accel_vert", "weight"] = -(inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing) / m**2
+        # the output does not change with the inputs where the acceleration is clipped
+        accel = (inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing - GRAV_CONST * m) / m
+        not_clipped = np.where(np.logical_or(accel < -GRAV_CONST, accel > 2.5 * GRAV_CONST), 0.0, 1.0)
+
+        J["accel_vert", "thrust"] = not_clipped * sing / m
+        J["accel_vert", "drag"] = -not_clipped * sing / m
+        J["accel_vert", "lift"] = not_clipped * cosg / m
+        J["accel_vert", "fltcond|singamma"] = not_clipped * (inputs["thrust"] - inputs["drag"]) / m
+        J["accel_vert", "fltcond|cosgamma"] = not_clipped * inputs["lift"] / m
+        J["accel_vert", "weight"] = (
+            -not_clipped * (inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing) / m**2
+        )
 
 
 class SteadyFlightCL(ExplicitComponent):
-- 
2.43.0


From d10b736bb5ecc42d57c63a68126e3c4303289884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 03/14] fix: Integrator partials w.r.t. time bounds when the
 integral has exact zeros

The sparse derivative stores no entry for exact zeros, so its data did not match the declared pattern.
---
 openconcept/utilities/math/integrals.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..c3c54b8 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -836,19 +836,14 @@ class Integrator(ExplicitComponent):
                     J[end_name, "duration"] = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
 
                 elif time_setup == "bounds":
+                    # densify first: the sparse matrix stores no entry where the change happens to be exactly zero
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J[qty_name, "t_initial"] = np.zeros(J[qty_name, "t_initial"].shape)
-                            J[qty_name, "t_final"] = np.zeros(J[qty_name, "t_final"].shape)
-                        else:
-                            J[qty_name, "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J[qty_name, "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J[end_name, "t_initial"] = 0
-                        J[end_name, "t_final"] = 0
-                    else:
-                        J[end_name, "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J[end_name, "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        dQddt = np.squeeze(dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                        J[qty_name, "t_initial"] = -dQddt
+                        J[qty_name, "t_final"] = dQddt
+                    dQfddt = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
+                    J[end_name, "t_initial"] = -dQfddt
+                    J[end_name, "t_final"] = dQfddt
 
 
 class OldIntegrator(ExplicitComponent):
-- 
2.43.0


From b5abac810cc7c7387d854288895a8b27a08dc2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 04/14] fix: keep the units of AddSubtractComp equations across
 repeated setups

---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..57aeaaf 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units", None)
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From 461d114fd3e4d4a8a8ab83e06967380a4eedbbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 05/14] fix: use the wick conductivity for the wick resistance
 of heat pipes

---
 openconcept/thermal/heat_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index d9bc53e..55547a9 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -270,14 +270,14 @@ class HeatPipeThermalResistance(ExplicitComponent):
         # Heat enters radially in through end of pipe (evaporator), along length of pipe, and radially out (condenser)
         # Resistance of evaporator
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
+        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_evap = log_o_i_pipe / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
         R_evap = R_mesh_evap + R_pipe_evap
 
         # Resistance of condenser
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
+        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_cond = log_o_i_pipe / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
         R_cond = R_mesh_cond + R_pipe_cond
-- 
2.43.0


From 43f52f4eaf383a2ed7faf22a6c59cc3074a91260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 06/14] fix: start the climb of MissionWithReserve at takeoff|h

takeoff|h is documented as the takeoff and landing altitude, but only
BasicMission connected it to the climb; with reserves the climb always
started at 0 m while the descents returned to takeoff|h.
---
 openconcept/mission/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 922dc5c..52d0b11 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -138,7 +138,7 @@ class FullMissionWithReserve(TrajectoryGroup):
         )
         climb.connect("ode_integ_phase.fltcond|h_final", "climbdt.fltcond|h_final")
         self.connect("cruise|h0", "climb.climbdt.cruise|h0")
-        if not self.include_reserve and not self.include_takeoff:  # BasicMission
+        if not self.include_takeoff:  # BasicMission or MissionWithReserve
             self.connect("takeoff|h", "climb.ode_integ_phase.fltcond|h_initial")
 
         cruise = self.add_subsystem(
-- 
2.43.0


From dd1489f1e05019dcc5982d0cd7e21069e47831fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 07/14] fix: start the reserve climb at the altitude where the
 descent ended

The initial altitude of reserve_climb was left unconnected (0 m), while the
preceding descent and the reserve descent both end at takeoff|h.
---
 openconcept/mission/profiles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 52d0b11..0053ef3 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -210,6 +210,8 @@ class FullMissionWithReserve(TrajectoryGroup):
             )
             reserve_climb.connect("ode_integ_phase.fltcond|h_final", "reserve_climbdt.fltcond|h_final")
             self.connect("reserve|h0", "reserve_climb.reserve_climbdt.reserve|h0")
+            # the descent ends (and the reserve descent will end) at the landing altitude
+            self.connect("takeoff|h", "reserve_climb.ode_integ_phase.fltcond|h_initial")
 
             reserve_cruise = self.add_subsystem(
                 "reserve_cruise",
-- 
2.43.0


From 3a1e020ad6dec1b24efc9ee3b941b1f0ba905f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 08/14] fix: link phases whose states are final_only or
 zero_start

A final_only integrand has no output with its history (promoted name None,
AttributeError) and a zero_start integrand no initial value to connect, so
any mission with such a state could not be set up.
---
 openconcept/mission/mission_groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..6af5020 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -317,12 +317,16 @@ class TrajectoryGroup(om.Group):
                     phase2_start_abs_name = self.pathname + "." + phase2_start_abs_name
 
                 phase1_prom_name = get_prom_name(self, phase1_abs_name, "output")
-                if phase1_prom_name.startswith(phase1.name):  # only modify the text if it starts with the prefix
+                if phase1_prom_name is None:  # final_only integrands have no output with the whole history
+                    state_prom_name = state_tuple[0]
+                elif phase1_prom_name.startswith(phase1.name):  # only modify the text if it starts with the prefix
                     state_prom_name = phase1_prom_name.replace(phase1.name + ".", "", 1)
                 else:
                     state_prom_name = phase1_prom_name
                 phase1_end_prom_name = get_prom_name(self, phase1_end_abs_name, "output")
                 phase2_start_prom_name = get_prom_name(self, phase2_start_abs_name, "input")
+                if phase2_start_prom_name is None:  # zero_start integrands have no initial value to connect
+                    continue
                 if state_tuple[0] not in states_to_skip:
                     if state_prom_name not in states_to_skip:
                         self.connect(phase1_end_prom_name, phase2_start_prom_name)
-- 
2.43.0


From db885f2bac6733c2248104c5aeb7e77501ddbdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:38 +0000
Subject: [PATCH 09/14] fix: link a state to the start value of the second
 phase's own integrator

The start was looked up under the first phase's start_name, so a state whose
integrators name their initial values differently could not be linked.
---
 openconcept/mission/mission_groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index 6af5020..b7b1235 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -305,12 +305,13 @@ class TrajectoryGroup(om.Group):
         # print a report of states linked
         phase1_states = phase1._oc_states_list
         phase2_states = phase2._oc_states_list
+        phase2_start_names = {state_tuple_2[0]: state_tuple_2[1] for state_tuple_2 in phase2_states}
         self._setup_var_data()
         for state_tuple in phase1_states:
-            if state_tuple[0] in [state_tuple_2[0] for state_tuple_2 in phase2_states]:
+            if state_tuple[0] in phase2_start_names:
                 phase1_abs_name = phase1.name + "." + state_tuple[0]
                 phase1_end_abs_name = phase1.name + "." + state_tuple[2]  # final
-                phase2_start_abs_name = phase2.name + "." + state_tuple[1]  # initial
+                phase2_start_abs_name = phase2.name + "." + phase2_start_names[state_tuple[0]]  # initial
                 if self.pathname:
                     phase1_abs_name = self.pathname + "." + phase1_abs_name
                     phase1_end_abs_name = self.pathname + "." + phase1_end_abs_name
-- 
2.43.0


From f3297b5c5d29f4cb22ce1097e37f6f6e088cd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 10/14] fix: allow three-bladed SimplePropeller

The 3-blade maps were selected and then rejected by the else branch of the
following if.
---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..38ad1e5 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -61,7 +61,7 @@ class SimplePropeller(Group):
         if n_blades == 3:
             propmap = propeller_map_Raymer(nn)
             staticpropmap = static_propeller_map_Raymer(nn)
-        if n_blades == 4:
+        elif n_blades == 4:
             propmap = propeller_map_highpower(nn)
             staticpropmap = static_propeller_map_highpower(nn)
         else:
-- 
2.43.0


From 0579591874f007eabf6834225169869cca71e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 11/14] fix: SeriesHybridElectricPropulsionSystem promotes the
 flight conditions by their current names

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index 3700417..d7e0bfe 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -174,7 +174,7 @@ class SeriesHybridElectricPropulsionSystem(Group):
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
-            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond_*"], promotes_outputs=["thrust"]
+            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
         )
 
         # connect design variables to model component inputs
-- 
2.43.0


From d42c12e6f0ba0c88711e3bb754fa0ef1fd912868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:36 +0000
Subject: [PATCH 12/14] fix: OldIntegrator with a single node and zero_start
 returns zero instead of failing

---
 openconcept/utilities/math/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index c3c54b8..0de0f2b 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1111,7 +1111,7 @@ class OldIntegrator(ExplicitComponent):
             )
         else:
             # single point case, no change, no dependence on time
-            Q = q0
+            Q = q0 * np.ones((1,))
 
         if not final_only:
             outputs["q"] = Q
-- 
2.43.0


From 9583b2df3454cfe9510f5e6f3d1341e765ee26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 13/14] fix: OldIntegrator with several segments of a single
 node each does not ask for time steps it has not declared

---
 openconcept/utilities/math/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 0de0f2b..815af57 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1089,7 +1089,7 @@ class OldIntegrator(ExplicitComponent):
             elif time_setup == "bounds":
                 delta_t = inputs["t_final"] - inputs["t_initial"]
                 dts = [delta_t[0] / (num_nodes - 1)]
-        else:
+        elif not single_point:
             dts = []
             for segment_name in segment_names:
                 input_name = segment_name + "|dt"
-- 
2.43.0


From a2c760c53186b317058c5e601a11c93153e514e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:27 +0000
Subject: [PATCH 14/14] fix: OldIntegrator partials keep the declared pattern
 when some rates have no influence on the integral

---
 openconcept/utilities/math/integrals.py | 27 ++++++++++++-------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 815af57..2f0ae33 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1192,20 +1192,19 @@ class OldIntegrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J["q", "t_initial"] = np.zeros(J["q", "t_initial"].shape)
-                            J["q", "t_final"] = np.zeros(J["q", "t_final"].shape)
-                        else:
-                            J["q", "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J["q", "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J["q_final", "t_initial"] = 0
-                        J["q_final", "t_final"] = 0
-                    else:
-                        J["q_final", "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J["q_final", "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        dqdt_partial = np.squeeze(dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                        J["q", "t_initial"] = -dqdt_partial
+                        J["q", "t_final"] = dqdt_partial
+                    dqfdt_partial = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
+                    J["q_final", "t_initial"] = -dqfdt_partial
+                    J["q_final", "t_final"] = dqfdt_partial
             else:
                 for i_seg, segment_name in enumerate(segment_names):
+                    if segments_to_count is not None and segment_name not in segments_to_count:
+                        continue  # no dependence, so no entries are declared
                     if not final_only:
-                        J["q", segment_name + "|dt"] = dQddtlist[i_seg].data
-                    J["q_final", segment_name + "|dt"] = dQddtlist[i_seg].getrow(-1).data
+                        # nonzero entries begin after the first node of the segment, as declared in setup
+                        J["q", segment_name + "|dt"] = np.squeeze(
+                            dQddtlist[i_seg].toarray()[i_seg * num_nodes + 1 :]
+                        )
+                    J["q_final", segment_name + "|dt"] = np.squeeze(dQddtlist[i_seg].getrow(-1).toarray())
-- 
2.43.0

