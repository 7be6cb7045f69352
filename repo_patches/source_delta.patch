From bcb9fdbcc9f2d3c9aa08e0101760bbbeeb0fe45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:00 +0000
Subject: [PATCH 01/35] fix: pass mixing rule and temperature guess to the
 volumetric flow derivatives

Specifying v (or a reference to v) on a connection with a fluid mixture and
variable pressure or enthalpy raised a KeyError, since the mixing rule was not
passed on. The second evaluation of the difference quotient used a volume as
starting value for the temperature.
---
 src/tespy/connections/connection.py           | 8 ++++----
 src/tespy/tools/fluid_properties/functions.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 9e41375..1354b78 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -801,9 +801,9 @@ class Connection:
         if self.m.is_var:
             self.jacobian[k, self.m.J_col] = self.calc_vol(T0=self.T.val_SI)
         if self.p.is_var:
-            self.jacobian[k, self.p.J_col] = dv_mix_dph(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.p.J_col] = dv_mix_dph(self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, self.T.val_SI) * self.m.val_SI
         if self.h.is_var:
-            self.jacobian[k, self.h.J_col] = dv_mix_pdh(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.h.J_col] = dv_mix_pdh(self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, self.T.val_SI) * self.m.val_SI
 
     def v_ref_func(self, k, **kwargs):
         ref = self.v_ref.ref
@@ -823,12 +823,12 @@ class Connection:
             )
         if ref.obj.p.is_var:
             self.jacobian[k, ref.obj.p.J_col] = -(
-                dv_mix_dph(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_dph(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data, ref.obj.mixing_rule, ref.obj.T.val_SI)
                 * ref.obj.m.val_SI * ref.factor
             )
         if ref.obj.h.is_var:
             self.jacobian[k, ref.obj.h.J_col] = -(
-                dv_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data, ref.obj.mixing_rule, ref.obj.T.val_SI)
                 * ref.obj.m.val_SI * ref.factor
             )
 
diff --git a/src/tespy/tools/fluid_properties/functions.py b/src/tespy/tools/fluid_properties/functions.py
index 0ef9d58..dfa0f92 100644
--- a/src/tespy/tools/fluid_properties/functions.py
+++ b/src/tespy/tools/fluid_properties/functions.py
@@ -233,14 +233,14 @@ def v_mix_ph(p, h, fluid_data, mixing_rule=None, T0=None):
 def dv_mix_dph(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p + d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
 def dv_mix_pdh(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p, h + d, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
-- 
2.43.0


From f52487e5e06d9da96159974faf96d6f13d3058c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:10 +0000
Subject: [PATCH 02/35] fix: do not use the offset of a temperature reference
 as temperature guess

For a reference to a connection without specified temperature (volumetric
flow) the starting value was the offset itself, because the value of the
referenced connection is not known at that point. For mixtures this made the
first temperature evaluation fail.
---
 src/tespy/networks/network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index c57adc9..11607c0 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1705,6 +1705,13 @@ class Network:
                     for key in self.specifications["Ref"].columns:
                         prop = key.split("_ref")[0]
                         if c.get_attr(key).is_set and not c.get_attr(prop).is_set:
+                            # T and v of the referenced connection are unknown
+                            # at this point unless they are specified
+                            if (
+                                prop in ["T", "v"]
+                                and not c.get_attr(key).ref.obj.get_attr(prop).is_set
+                            ):
+                                continue
                             c.get_attr(prop).val_SI = (
                                 c.get_attr(key).ref.obj.get_attr(prop).val_SI
                                 * c.get_attr(key).ref.factor
-- 
2.43.0


From 7058fd8a740a2998d936e124ef953e0b1773220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:10 +0000
Subject: [PATCH 03/35] fix: keep the sign of the pressure difference in the
 Hazen-Williams equation

math.copysign(dp, m) discards the sign of dp, so a pressure increase along the
flow direction also satisfied the equation.
---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 18b6b24..4a8b59e 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -451,7 +451,7 @@ class SimpleHeatExchanger(Component):
         v_o = o.calc_vol(T0=o.T.val_SI)
 
         return (
-            math.copysign(i.p.val_SI - o.p.val_SI, i.m.val_SI)
+            (i.p.val_SI - o.p.val_SI) * math.copysign(1, i.m.val_SI)
             - (
                 10.67 * abs(i.m.val_SI) ** 1.852 * self.L.val /
                 (self.ks_HW.val ** 1.852 * self.D.val ** 4.871)
-- 
2.43.0


From 358918b2ef77cc18044f12f3662d5e83456b6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:53 +0000
Subject: [PATCH 04/35] fix: count one fluid balance per fluid at a merge

If only part of the composition at the outlet of a merge is specified, the
number of equations did not match the length of the residual vector and the
calculation aborted with a broadcasting error.
---
 src/tespy/components/nodes/merge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tespy/components/nodes/merge.py b/src/tespy/components/nodes/merge.py
index 53f8b9b..e621e1c 100644
--- a/src/tespy/components/nodes/merge.py
+++ b/src/tespy/components/nodes/merge.py
@@ -140,10 +140,11 @@ class Merge(NodeBase):
         variable_fluids = set(
             [fluid for c in self.inl + self.outl for fluid in c.fluid.is_var]
         )
-        num_fluid_eq = len(variable_fluids)
+        # there is one balance per fluid, even if only part of the composition
+        # is variable
+        num_fluid_eq = len(self.outl[0].fluid.val)
 
-        if num_fluid_eq == 0:
-            num_fluid_eq = len(self.inl[0].fluid.val)
+        if len(variable_fluids) == 0:
             num_m_eq = 0
         else:
             num_m_eq = 1
-- 
2.43.0


From 105a46f5e7a49749304feda674fc626b1d34a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:03 +0000
Subject: [PATCH 05/35] fix: balance only the combustion gases at a combustion
 engine

The coolant of the engine was added to the list of fluids taking part in the
reaction, i.e. an engine with a coolant fluid name not available in the flue
gas could not be calculated.
---
 src/tespy/components/combustion/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index baf43a8..587407d 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -170,9 +170,10 @@ class CombustionChamber(Component):
         }
 
     def get_mandatory_constraints(self):
+        inl, outl = self._get_combustion_connections()
         self.fluid_eqs = set(
             [
-                f for c in self.inl + self.outl
+                f for c in inl + outl
                 for f in c.fluid.val
             ]
         )
@@ -251,7 +252,8 @@ class CombustionChamber(Component):
     def setup_reaction_parameters(self):
         r"""Setup parameters for reaction (gas name aliases and LHV)."""
         self.fuel_list = []
-        all_fluids = [f for c in self.inl + self.outl for f in c.fluid.val]
+        inl, outl = self._get_combustion_connections()
+        all_fluids = [f for c in inl + outl for f in c.fluid.val]
         for f in all_fluids:
             if fluidalias_in_list(f, combustion_gases):
                 self.fuel_list += [f]
-- 
2.43.0


From 70801c21924f1ecf156ada90ad615dda31cc045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:03 +0000
Subject: [PATCH 06/35] fix: count of mass flow equations of a fuel cell with
 given oxygen flow

Specifying the mass flow of the oxygen inlet accessed an outlet, which does
not exist.
---
 src/tespy/components/reactors/fuel_cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/reactors/fuel_cell.py b/src/tespy/components/reactors/fuel_cell.py
index 403f39b..ab40e1d 100644
--- a/src/tespy/components/reactors/fuel_cell.py
+++ b/src/tespy/components/reactors/fuel_cell.py
@@ -185,7 +185,7 @@ class FuelCell(Component):
     def get_mandatory_constraints(self):
         num_mass_eq = (
             (self.inl[1].m.is_var or self.outl[1].m.is_var)
-            + (self.inl[1].m.is_var or self.outl[2].m.is_var)
+            + (self.inl[2].m.is_var or self.outl[1].m.is_var)
         )
         return {
             'mass_flow_constraints': {
-- 
2.43.0


From f383fc960ab3464c2e48d6a54af1e8ea0fe6126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:29 +0000
Subject: [PATCH 07/35] fix: gas above the critical temperature is gas

The phase of a subcritical pressure state above the critical temperature was
not recognised, its vapor mass fraction was reported as -1 and the steam
turbine could not be calculated with such a state at its outlet.
---
 src/tespy/tools/fluid_properties/wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index fd1d727..9caabdb 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -236,7 +236,7 @@ class CoolPropWrapper(FluidPropertyWrapper):
             return self.AS.Q()
         elif self.AS.phase() == CP.iphase_liquid:
             return 0
-        elif self.AS.phase() == CP.iphase_gas:
+        elif self.AS.phase() in [CP.iphase_gas, CP.iphase_supercritical_gas]:
             return 1
         else:  # all other phases - though this should be unreachable as p is sub-critical
             return -1
@@ -249,7 +249,7 @@ class CoolPropWrapper(FluidPropertyWrapper):
             return "tp"
         elif self.AS.phase() == CP.iphase_liquid:
             return "l"
-        elif self.AS.phase() == CP.iphase_gas:
+        elif self.AS.phase() in [CP.iphase_gas, CP.iphase_supercritical_gas]:
             return "g"
         else:  # all other phases - though this should be unreachable as p is sub-critical
             return "state not recognised"
-- 
2.43.0


From 4d6a97fa38a9f04ed31f57d91c11fca0a20e1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:44 +0000
Subject: [PATCH 08/35] fix: use the SI value of the temperature difference to
 boiling point

A given pressure together with Td_bp in Fahrenheit or Rankine put the stream
at a temperature difference of the plain number in Kelvin.
---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 1354b78..1e14069 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -653,7 +653,7 @@ class Connection:
                 self.T._solved = True
             elif self.Td_bp.is_set:
                 T_sat = T_sat_p(self.p.val_SI, self.fluid_data)
-                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val, self.fluid_data)
+                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val_SI, self.fluid_data)
                 self.h._solved = True
                 self.Td_bp._solved = True
             elif self.x.is_set:
-- 
2.43.0


From 167f2899045b70a825819cd4545cffaffba869ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:28 +0000
Subject: [PATCH 09/35] fix: leave the specifications untouched if a
 calculation is aborted by an error

An error in the initialisation, e.g. for a missing or surplus parameter, left
the connections with the mass flow and fluid containers of the reduced
topology. Correcting the specification and solving again then failed with
unrelated errors.
---
 src/tespy/networks/network.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 11607c0..5cdcc9a 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1969,18 +1969,25 @@ class Network:
         )
         logger.debug(msg)
 
-        self.initialise()
+        try:
+            self.initialise()
 
-        if init_only:
-            self.reset_topology_reduction_specifications()
-            return
+            if init_only:
+                self.reset_topology_reduction_specifications()
+                return
 
-        msg = 'Starting solver.'
-        logger.info(msg)
+            msg = 'Starting solver.'
+            logger.info(msg)
+
+            self.solve_determination()
 
-        self.solve_determination()
+            self.solve_loop(print_results=print_results)
 
-        self.solve_loop(print_results=print_results)
+        except Exception:
+            # the specifications of the user have to be left untouched, so
+            # they can be corrected
+            self.reset_topology_reduction_specifications()
+            raise
 
         if not prepare_fast_lane:
             self.reset_topology_reduction_specifications()
-- 
2.43.0


From c1637c5f860216b15f57f022af09710af0063557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:19 +0000
Subject: [PATCH 10/35] fix: always apply both mass flow balances of fuel cell
 and electrolyzer

With the mass flow given at both ends of a balance (e.g. oxygen and water) the
balance was dropped, so contradicting values were accepted and the calculation
converged with a violated mass balance.
---
 src/tespy/components/reactors/fuel_cell.py    | 28 +++++++------------
 .../components/reactors/water_electrolyzer.py | 28 +++++++------------
 2 files changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/tespy/components/reactors/fuel_cell.py b/src/tespy/components/reactors/fuel_cell.py
index ab40e1d..f7ddb9d 100644
--- a/src/tespy/components/reactors/fuel_cell.py
+++ b/src/tespy/components/reactors/fuel_cell.py
@@ -183,15 +183,11 @@ class FuelCell(Component):
         }
 
     def get_mandatory_constraints(self):
-        num_mass_eq = (
-            (self.inl[1].m.is_var or self.outl[1].m.is_var)
-            + (self.inl[2].m.is_var or self.outl[1].m.is_var)
-        )
         return {
             'mass_flow_constraints': {
                 'func': self.mass_flow_func, 'deriv': self.mass_flow_deriv,
                 'constant_deriv': True, 'latex': self.mass_flow_func_doc,
-                'num_eq': num_mass_eq},
+                'num_eq': 2},
             'energy_balance_constraints': {
                 'func': self.energy_balance_func,
                 'deriv': self.energy_balance_deriv,
@@ -550,12 +546,10 @@ class FuelCell(Component):
         M_h2 = self.inl[2].fluid.wrapper[self.h2]._molar_mass
         o2 = M_o2 / (M_o2 + 2 * M_h2)
         # equations for mass flow balance of the fuel cell
-        residual = []
-        if self.inl[1].m.is_var or self.outl[1].m.is_var:
-            residual += [o2 * self.outl[1].m.val_SI - self.inl[1].m.val_SI]
-        if self.inl[2].m.is_var or self.outl[1].m.is_var:
-            residual += [(1 - o2) * self.outl[1].m.val_SI - self.inl[2].m.val_SI]
-        return residual
+        return [
+            o2 * self.outl[1].m.val_SI - self.inl[1].m.val_SI,
+            (1 - o2) * self.outl[1].m.val_SI - self.inl[2].m.val_SI,
+        ]
 
     def mass_flow_func_doc(self, label):
         r"""
@@ -594,13 +588,11 @@ class FuelCell(Component):
         M_o2 = self.inl[1].fluid.wrapper[self.o2]._molar_mass
         M_h2 = self.inl[2].fluid.wrapper[self.h2]._molar_mass
         o2 = M_o2 / (M_o2 + 2 * M_h2)
-        # number of equations may vary here
-        if self.inl[1].m.is_var or self.outl[1].m.is_var:
-            if self.inl[1].m.is_var:
-                self.jacobian[k, self.inl[1].m.J_col] = -1
-            if self.outl[1].m.is_var:
-                self.jacobian[k, self.outl[1].m.J_col] = o2
-            k += 1
+        if self.inl[1].m.is_var:
+            self.jacobian[k, self.inl[1].m.J_col] = -1
+        if self.outl[1].m.is_var:
+            self.jacobian[k, self.outl[1].m.J_col] = o2
+        k += 1
 
         # derivatives for mass flow balance for hydrogen input
         if self.outl[1].m.is_var:
diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index d1299a0..ea399ad 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -218,15 +218,11 @@ class WaterElectrolyzer(Component):
         }
 
     def get_mandatory_constraints(self):
-        num_mass_eq = (
-            (self.inl[1].m.is_var or self.outl[1].m.is_var)
-            + (self.inl[1].m.is_var or self.outl[2].m.is_var)
-        )
         return {
             'mass_flow_constraints': {
                 'func': self.mass_flow_func, 'deriv': self.mass_flow_deriv,
                 'constant_deriv': True, 'latex': self.mass_flow_func_doc,
-                'num_eq': num_mass_eq},
+                'num_eq': 2},
             'energy_balance_constraints': {
                 'func': self.energy_balance_func,
                 'deriv': self.energy_balance_deriv,
@@ -724,12 +720,10 @@ class WaterElectrolyzer(Component):
 
         o2 = M_o2 / (M_o2 + 2 * M_h2)
         # equations for mass flow balance electrolyzer
-        residual = []
-        if self.inl[1].m.is_var or self.outl[1].m.is_var:
-            residual += [o2 * self.inl[1].m.val_SI - self.outl[1].m.val_SI]
-        if self.inl[1].m.is_var or self.outl[2].m.is_var:
-            residual += [(1 - o2) * self.inl[1].m.val_SI - self.outl[2].m.val_SI]
-        return residual
+        return [
+            o2 * self.inl[1].m.val_SI - self.outl[1].m.val_SI,
+            (1 - o2) * self.inl[1].m.val_SI - self.outl[2].m.val_SI,
+        ]
 
     def mass_flow_func_doc(self, label):
         r"""
@@ -771,13 +765,11 @@ class WaterElectrolyzer(Component):
 
         o2 = M_o2 / (M_o2 + 2 * M_h2)
 
-        # number of equations may vary here
-        if self.inl[1].m.is_var or self.outl[1].m.is_var:
-            if self.inl[1].m.is_var:
-                self.jacobian[k, self.inl[1].m.J_col] = o2
-            if self.outl[1].m.is_var:
-                self.jacobian[k, self.outl[1].m.J_col] = -1
-            k += 1
+        if self.inl[1].m.is_var:
+            self.jacobian[k, self.inl[1].m.J_col] = o2
+        if self.outl[1].m.is_var:
+            self.jacobian[k, self.outl[1].m.J_col] = -1
+        k += 1
 
         # derivatives for mass flow balance for hydrogen output
         if self.inl[1].m.is_var:
-- 
2.43.0


From 011ac5943f70f85e673f2db94997fd888e87d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 11/35] fix: minimum terminal temperature difference of a
 condenser

The equation took the temperature of the superheated inlet, while ttd_u and
the reported ttd_min refer to the boiling temperature: a specified value was
not met.
---
 .../components/heat_exchangers/condenser.py   | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/condenser.py b/src/tespy/components/heat_exchangers/condenser.py
index e417621..8451e44 100644
--- a/src/tespy/components/heat_exchangers/condenser.py
+++ b/src/tespy/components/heat_exchangers/condenser.py
@@ -49,7 +49,7 @@ class Condenser(HeatExchanger):
     - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.kA_char_func`
     - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.ttd_u_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.ttd_l_func`
-    - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.ttd_min_func`
+    - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.ttd_min_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_cold_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_hot_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_max_func`
@@ -468,6 +468,30 @@ class Condenser(HeatExchanger):
             r' + T_\mathrm{out,2}')
         return generate_latex_eq(self, latex, label)
 
+    def ttd_min_func(self):
+        r"""
+        Equation for minimum terminal temperature difference.
+
+        Returns
+        -------
+        residual : float
+            Residual value of equation.
+
+            .. math::
+
+                ttd_{l} = T_{out,1} - T_{in,2}
+                ttd_{u} = T_{sat} \left(p_{in,1}\right) - T_{out,2}
+                0 = ttd_{min} - \text{min}\left(ttd_{u}, ttd_{l}\right)
+
+        Note
+        ----
+        The upper terminal temperature difference ttd_u refers to boiling
+        temperature at hot side inlet.
+        """
+        ttd_l = self.outl[0].calc_T() - self.inl[1].calc_T()
+        ttd_u = self.inl[0].calc_T_sat() - self.outl[1].calc_T()
+        return self.ttd_min.val - min(ttd_l, ttd_u)
+
     def calc_parameters(self):
         r"""Postprocessing parameter calculation."""
         self.Q.val = self.inl[0].m.val_SI * (
-- 
2.43.0


From 6c2ec34fbc8ac59f34b62740628ea6347e302499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:54 +0000
Subject: [PATCH 12/35] fix: export the local_offdesign flag of connections

---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 1e14069..8f943cd 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -589,7 +589,7 @@ class Connection:
     def _serializable():
         return [
             "source_id", "target_id",
-            "design_path", "design", "offdesign", "local_design", "local_design",
+            "design_path", "design", "offdesign", "local_design", "local_offdesign",
             "printout", "mixing_rule"
         ]
 
-- 
2.43.0


From 62700508b375badf2a5dccd5b57563f1092c776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:54 +0000
Subject: [PATCH 13/35] fix: export the unit of the specific volume

---
 src/tespy/networks/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 5cdcc9a..a2fcee0 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -161,6 +161,7 @@ class Network:
             "x_unit": self.x_unit,
             "v_unit": self.v_unit,
             "s_unit": self.s_unit,
+            "vol_unit": self.vol_unit,
         }
 
     def set_defaults(self):
-- 
2.43.0


From ba191103d4ac6e375e99cb96142f501624edc545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:54 +0000
Subject: [PATCH 14/35] fix: do not activate references on loading, which are
 not set

A reference that had been unset before the export was specified again in the
loaded network.
---
 src/tespy/networks/network_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/networks/network_reader.py b/src/tespy/networks/network_reader.py
index f75ee03..8d94585 100644
--- a/src/tespy/networks/network_reader.py
+++ b/src/tespy/networks/network_reader.py
@@ -374,7 +374,7 @@ def _construct_connections(data, comps):
 
     for label, conn in data.items():
         for arg in arglist_ref:
-            if len(conn[arg]) > 0:
+            if len(conn[arg]) > 0 and conn[arg]["is_set"]:
                 param = arg.replace("_ref", "")
                 ref = Ref(
                     conns[conn[arg]["conn"]],
-- 
2.43.0


From 218ecff1fe262ffce0f1367d6605af15009f2a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:54 +0000
Subject: [PATCH 15/35] fix: fluid composition of a loaded network can be
 changed

The list of specified fluids was loaded as list instead of a set, changing the
fluid composition raised an AttributeError.
---
 src/tespy/networks/network_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tespy/networks/network_reader.py b/src/tespy/networks/network_reader.py
index 8d94585..da69e6c 100644
--- a/src/tespy/networks/network_reader.py
+++ b/src/tespy/networks/network_reader.py
@@ -369,6 +369,7 @@ def _construct_connections(data, comps):
         for f, engine in conn["fluid"]["engine"].items():
             conn["fluid"]["engine"][f] = wrapper_registry.items[engine]
 
+        conn["fluid"]["is_set"] = set(conn["fluid"]["is_set"])
         conns[label].fluid.set_attr(**conn["fluid"])
         conns[label]._create_fluid_wrapper()
 
-- 
2.43.0


From 7311eec1b128a13c8f5fc29a0a9c0afee533f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:54 +0000
Subject: [PATCH 16/35] fix: register all heat exchangers for loading a network

Networks with a MovingBoundaryHeatExchanger or a HeatExchangerSimple could be
exported, but not loaded.
---
 src/tespy/components/heat_exchangers/movingboundary.py | 2 ++
 src/tespy/components/heat_exchangers/simple.py         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/tespy/components/heat_exchangers/movingboundary.py b/src/tespy/components/heat_exchangers/movingboundary.py
index a95d0db..ae8b1bd 100644
--- a/src/tespy/components/heat_exchangers/movingboundary.py
+++ b/src/tespy/components/heat_exchangers/movingboundary.py
@@ -14,6 +14,7 @@ import math
 
 import numpy as np
 
+from tespy.components.component import component_registry
 from tespy.components.heat_exchangers.base import HeatExchanger
 from tespy.tools.data_containers import ComponentProperties as dc_cp
 from tespy.tools.fluid_properties import T_mix_ph
@@ -23,6 +24,7 @@ from tespy.tools.global_vars import ERR
 from tespy.tools.logger import logger
 
 
+@component_registry
 class MovingBoundaryHeatExchanger(HeatExchanger):
     r"""
     Class for counter current heat exchanger with UA sections.
diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 4a8b59e..336b303 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -1162,6 +1162,7 @@ class SimpleHeatExchanger(Component):
         }
 
 
+@component_registry
 class HeatExchangerSimple(SimpleHeatExchanger):
 
     def __init__(self, label, **kwargs):
-- 
2.43.0


From f673ec121873b029f73cd6db7cc6bc64094d1979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:02 +0000
Subject: [PATCH 17/35] fix: keep the units of the network when initialising
 from a path

The units of mass flow, pressure and enthalpy were overwritten by those of the
init_path: values specified by the user changed their meaning and results were
reported in units different to those of the network.
---
 src/tespy/networks/network.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index a2fcee0..a554233 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1553,8 +1553,14 @@ class Network:
 
         for prop in ['m', 'p', 'h']:
             data = c.get_attr(prop)
-            data.val0 = float(conn[prop])
-            data.unit = conn[prop + '_unit']
+            # the unit in the file might differ from the unit of the network
+            data.val0 = hlp.convert_from_SI(
+                prop,
+                hlp.convert_to_SI(
+                    prop, float(conn[prop]), conn[prop + '_unit']
+                ),
+                data.unit
+            )
 
         for fluid in c.fluid.is_var:
             c.fluid.val[fluid] = float(conn[fluid])
-- 
2.43.0


From e3c940b354bf966434b2866853fcccc40159a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:01 +0000
Subject: [PATCH 18/35] fix: switch connection specifications before presolving
 the topology

---
 src/tespy/networks/network.py | 65 +++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index a554233..3adf124 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -875,6 +875,9 @@ class Network:
             self.create_massflow_and_fluid_branches()
             self.create_fluid_wrapper_branches()
 
+        # the presolving steps depend on which parameters are specified
+        self.switch_connection_specifications()
+
         self.propagate_fluid_wrappers()
         self.presolve_massflow_topology()
         self.presolve_fluid_topology()
@@ -905,6 +908,42 @@ class Network:
         msg = 'Network initialised.'
         logger.info(msg)
 
+    def switch_connection_specifications(self):
+        r"""
+        Switch the connections between design and offdesign specifications.
+
+        - In offdesign mode (or in case of :code:`local_offdesign`) design
+          parameters are unset and offdesign parameters are set.
+        - In design mode design parameters are set and offdesign parameters
+          are unset after a preceding offdesign calculation.
+        """
+        for c in self.conns['object']:
+            if self.mode == 'offdesign':
+                if c.local_design:
+                    continue
+                for var in c.design:
+                    param = c.get_attr(var)
+                    param.is_set = False
+                    param.is_var = True
+                    if f"{var}_ref" in c.property_data:
+                        c.get_attr(f"{var}_ref").is_set = False
+                for var in c.offdesign:
+                    param = c.get_attr(var)
+                    param.is_set = True
+                    param.is_var = False
+
+            elif c.local_offdesign:
+                for var in c.design:
+                    c.get_attr(var).is_set = False
+                for var in c.offdesign:
+                    c.get_attr(var).is_set = True
+
+            elif self.redesign:
+                for var in c.design:
+                    c.get_attr(var).is_set = True
+                for var in c.offdesign:
+                    c.get_attr(var).is_set = False
+
     def propagate_fluid_wrappers(self):
 
         for branch_data in self.fluid_wrapper_branches.values():
@@ -1251,13 +1290,6 @@ class Network:
                     logger.error(msg)
                     raise hlp.TESPyNetworkError(msg)
 
-                # unset design parameters
-                for var in c.design:
-                    c.get_attr(var).is_set = False
-                # set offdesign parameters
-                for var in c.offdesign:
-                    c.get_attr(var).is_set = True
-
                 # read design point information
                 msg = (
                     "Reading individual design point information for "
@@ -1281,14 +1313,6 @@ class Network:
 
                 c.new_design = True
 
-                # switch connections to design mode
-                if self.redesign:
-                    for var in c.design:
-                        c.get_attr(var).is_set = True
-
-                    for var in c.offdesign:
-                        c.get_attr(var).is_set = False
-
             if not c.fluid.is_var:
                 c.simplify_specifications()
             self._assign_variable_space(c)
@@ -1593,18 +1617,9 @@ class Network:
         self._conn_variables = []
         for c in self.conns['object']:
             if not c.local_design:
-                # switch connections to offdesign mode
-                for var in c.design:
-                    param = c.get_attr(var)
-                    param.is_set = False
-                    param.is_var = True
-                    if f"{var}_ref" in c.property_data:
-                        c.get_attr(f"{var}_ref").is_set = False
-
+                # take nominal values from design point
                 for var in c.offdesign:
                     param = c.get_attr(var)
-                    param.is_set = True
-                    param.is_var = False
                     param.val_SI = param.design
 
                 c.new_design = False
-- 
2.43.0


From 9b256c843c93a82aa4a7a14c89626aa8bfd73faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:50 +0000
Subject: [PATCH 19/35] fix: unburned hydrogen and carbon of a rich combustion

---
 src/tespy/components/combustion/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index 587407d..54f70fe 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -532,13 +532,12 @@ class CombustionChamber(Component):
 
            \dot{m}_{H_{exc,m}} = \begin{cases}
            0 & \lambda \geq 1\\
-           4 \cdot \left( \dot{m}_{O_2,m,stoich} -
-           \dot{m}_{O_2,m}\right) & \lambda < 1
+           \left(1 - \lambda\right) \cdot \dot{m}_{H_m} & \lambda < 1
             \end{cases}
 
            \dot{m}_{C_{exc,m}} = \begin{cases}
            0 & \lambda \geq 1\\
-           \dot{m}_{O_2,m,stoich} - \dot{m}_{O_2,m} & \lambda < 1
+           \left(1 - \lambda\right) \cdot \dot{m}_{C_m} & \lambda < 1
             \end{cases}
 
         Equation for fuels
@@ -634,8 +633,8 @@ class CombustionChamber(Component):
         ###################################################################
         # calculate excess fuel if lambda is lower than 1
         if self.lamb.val < 1:
-            n_h_exc = (n_oxygen_stoich - n_oxygen) * 4
-            n_c_exc = (n_oxygen_stoich - n_oxygen)
+            n_h_exc = (1 - n_oxygen / n_oxygen_stoich) * n_h
+            n_c_exc = (1 - n_oxygen / n_oxygen_stoich) * n_c
         else:
             n_h_exc = 0
             n_c_exc = 0
-- 
2.43.0


From 589120e6878f76005551b9cf971ed9b45997b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:00 +0000
Subject: [PATCH 20/35] fix: starting value for the friction factor of smooth
 pipes

---
 src/tespy/tools/fluid_properties/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/helpers.py b/src/tespy/tools/fluid_properties/helpers.py
index ede4b76..d80086e 100644
--- a/src/tespy/tools/fluid_properties/helpers.py
+++ b/src/tespy/tools/fluid_properties/helpers.py
@@ -226,7 +226,7 @@ def darcy_friction_factor(re, ks, d):
             elif re < 1e6:
                 return hanakov(re)
             else:
-                l0 = 0.02
+                l0 = 0.002
                 function_kwargs = {
                     "function": prandtl_karman,
                     "parameter": "darcy_friction_factor",
-- 
2.43.0


From ad09bc33e79d5bb96066290164c36751262580b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:11 +0000
Subject: [PATCH 21/35] fix: saturation pressure of the IAPWS wrapper

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index 9caabdb..ad57958 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -374,7 +374,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         if T > self._T_crit:
             T = self._T_crit * 0.99
 
-        return self.AS(T=T / 1e6, x=0).P * 1e6
+        return self.AS(T=T, x=0).P * 1e6
 
     def Q_ph(self, p, h):
         p = self._make_p_subcritical(p)
-- 
2.43.0


From 84f5c7261306f73275fc6880582921d8379ed7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:11 +0000
Subject: [PATCH 22/35] fix: molar mass of the IAPWS wrapper in kg/mol

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index ad57958..9efca81 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -332,7 +332,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         self._p_max = 100e6
         self._p_crit = iapws._iapws.Pc * 1e6
         self._T_crit = iapws._iapws.Tc
-        self._molar_mass = iapws._iapws.M
+        self._molar_mass = iapws._iapws.M / 1e3
 
     def _is_below_T_critical(self, T):
         return T < self._T_crit
-- 
2.43.0


From 3d411836c847d08c6b8ba66c2c0bfd3dcb21b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 23/35] fix: specific volume of gas mixtures with condensing
 water

---
 src/tespy/tools/fluid_properties/mixtures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/mixtures.py b/src/tespy/tools/fluid_properties/mixtures.py
index 50eb7cf..8007aec 100644
--- a/src/tespy/tools/fluid_properties/mixtures.py
+++ b/src/tespy/tools/fluid_properties/mixtures.py
@@ -157,12 +157,12 @@ def v_mix_pT_ideal_cond(p=None, T=None, fluid_data=None, **kwargs):
         for fluid, data in fluid_data.items():
             if _is_larger_than_precision(data["mass_fraction"]):
                 if fluid == water_alias:
-                    d += fluid_data[water_alias]["wrapper"].d_QT(0, T) * mass_liquid
-                    d += fluid_data[water_alias]["wrapper"].d_QT(1, T) * (1 - mass_liquid)
+                    d += fluid_data[water_alias]["wrapper"].d_QT(1, T)
                 else:
                     pp = p * molar_fraction_gas[fluid]
-                    d += data["wrapper"].d_pT(pp, T) * (1 - mass_liquid)
-        return 1 / d
+                    d += data["wrapper"].d_pT(pp, T)
+        d_liquid = fluid_data[water_alias]["wrapper"].d_QT(0, T)
+        return mass_liquid / d_liquid + (1 - mass_liquid) / d
     else:
         return v_mix_pT_ideal(p, T, fluid_data, **kwargs)
 
-- 
2.43.0


From 1d5fc33cd46ebdea9cc07ad778feaea49edd657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 24/35] fix: phase of superheated steam above the critical
 temperature with the IAPWS wrapper

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index 9efca81..1820805 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -387,7 +387,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
 
         if phase in ["Liquid"]:
             return "l"
-        elif phase in  ["Vapour"]:
+        elif phase in ["Vapour", "Gas"]:
             return "g"
         elif phase in ["Two phases", "Saturated vapor", "Saturated liquid"]:
             return "tp"
-- 
2.43.0


From 800261b35a89ce3d4a8f796cdda43268e57e3085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:38 +0000
Subject: [PATCH 25/35] fix: temperature of mixtures with a kink at the dew
 point

---
 src/tespy/tools/fluid_properties/helpers.py |  1 +
 src/tespy/tools/helpers.py                  | 52 ++++++++++++++++++++-
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/helpers.py b/src/tespy/tools/fluid_properties/helpers.py
index d80086e..ba543b6 100644
--- a/src/tespy/tools/fluid_properties/helpers.py
+++ b/src/tespy/tools/fluid_properties/helpers.py
@@ -84,6 +84,7 @@ def inverse_temperature_mixture(p=None, target_value=None, fluid_data=None, T0=N
         val0=T0,
         valmin=valmin,
         valmax=valmax,
+        bisect=True,
         **function_kwargs
     )
 
diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index 4ea3a9b..fef10f9 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -512,7 +512,8 @@ def bus_char_derivative(component_value, char_func, reference_value, bus_value,
 
 def newton_with_kwargs(
         derivative, target_value, val0=300, valmin=70, valmax=3000, max_iter=10,
-        tol_rel=ERR, tol_abs=ERR ** 2, tol_mode="rel", **function_kwargs
+        tol_rel=ERR, tol_abs=ERR ** 2, tol_mode="rel", bisect=False,
+        **function_kwargs
     ):
 
     # start newton loop
@@ -554,6 +555,13 @@ def newton_with_kwargs(
             )
             logger.debug(msg)
 
+            if bisect:
+                # jumping at a kink of the function, e.g. at the dew point
+                x_bisection = bisection_with_kwargs(
+                    target_value, valmin, valmax, **function_kwargs
+                )
+                if x_bisection is not None:
+                    x = x_bisection
             break
         if tol_mode == 'abs' or target_value == 0:
             expr = abs(residual) >= tol_abs
@@ -565,6 +573,48 @@ def newton_with_kwargs(
     return x
 
 
+def bisection_with_kwargs(
+        target_value, valmin, valmax, max_iter=60, **function_kwargs
+    ):
+    """Find the value of a parameter of a monotonic function by bisection.
+
+    Returns
+    -------
+    float
+        Value of the parameter, None if the target value is not met between
+        the limits or the function cannot be evaluated at the limits.
+    """
+    parameter = function_kwargs["parameter"]
+    function = function_kwargs["function"]
+
+    def residual(x):
+        function_kwargs[parameter] = x
+        return target_value - function(**function_kwargs)
+
+    try:
+        res_min = residual(valmin)
+        try:
+            res_max = residual(valmax)
+        except ValueError:
+            # the upper limit may exceed the range of the function
+            valmax /= 2
+            res_max = residual(valmax)
+        if not res_min * res_max < 0:
+            return None
+
+        for _ in range(max_iter):
+            x = (valmin + valmax) / 2
+            res = residual(x)
+            if res * res_min > 0:
+                valmin = x
+            else:
+                valmax = x
+    except ValueError:
+        return None
+
+    return x
+
+
 def central_difference(function=None, parameter=None, delta=None, **kwargs):
     upper = kwargs.copy()
     upper[parameter] += delta
-- 
2.43.0


From adcdecb350033a419ba74cb5c94e0b5643b5af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:53 +0000
Subject: [PATCH 26/35] fix: evaluation of characteristic maps must not hand
 out the map's own arrays

---
 src/tespy/tools/characteristics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tespy/tools/characteristics.py b/src/tespy/tools/characteristics.py
index 99d9440..d18214b 100644
--- a/src/tespy/tools/characteristics.py
+++ b/src/tespy/tools/characteristics.py
@@ -272,11 +272,11 @@ class CharMap:
         """
         xpos = np.searchsorted(self.x, x)
         if xpos == len(self.x):
-            yarr = self.y[xpos - 1]
-            zarr = self.z[xpos - 1]
+            yarr = self.y[xpos - 1].copy()
+            zarr = self.z[xpos - 1].copy()
         elif xpos == 0:
-            yarr = self.y[0]
-            zarr = self.z[0]
+            yarr = self.y[0].copy()
+            zarr = self.z[0].copy()
         else:
             yfrac = (x - self.x[xpos - 1]) / (self.x[xpos] - self.x[xpos - 1])
             yarr = self.y[xpos - 1] + yfrac * (self.y[xpos] - self.y[xpos - 1])
@@ -368,13 +368,13 @@ class CharMap:
         """
         xpos = np.searchsorted(self.x, x)
         if xpos == len(self.x) and x != self.x[-1]:
-            yarr = self.y[xpos - 1]
+            yarr = self.y[xpos - 1].copy()
             msg = ('Operating point above CharMap range: '
                    'X=' + str(round(x, 3)) + ' with maximum of ' +
                    str(self.x[-1]) + ' at component ' + c + '.')
             logger.warning(msg)
         elif xpos == 0 and x != self.x[0]:
-            yarr = self.y[0]
+            yarr = self.y[0].copy()
             msg = ('Operating point below CharMap range: '
                    'X=' + str(round(x, 3)) + ' with minimum of ' +
                    str(self.x[0]) + ' at component ' + c + '.')
-- 
2.43.0


From d13081ee1bc07835194ecdd9bb7e1bf2e11a6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:53 +0000
Subject: [PATCH 27/35] fix: turbine efficiency characteristic ignores its
 char_params

---
 src/tespy/components/turbomachinery/turbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/turbomachinery/turbine.py b/src/tespy/components/turbomachinery/turbine.py
index 941ef86..a91051f 100644
--- a/src/tespy/components/turbomachinery/turbine.py
+++ b/src/tespy/components/turbomachinery/turbine.py
@@ -360,7 +360,7 @@ class Turbine(Turbomachine):
                 \left(h_\mathrm{out,s}-h_\mathrm{in}\right)
         """
         p = self.eta_s_char.param
-        expr = self.get_char_expr(p)
+        expr = self.get_char_expr(p, **self.eta_s_char.char_params)
         if not expr:
             msg = (
                 "Please choose a valid parameter, you want to link the "
-- 
2.43.0


From 4ce322e569f3907441168c035139020b1098b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:34 +0000
Subject: [PATCH 28/35] fix: removing connections of a network before its first
 simulation

---
 src/tespy/networks/network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 3adf124..87e6b1f 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -561,9 +561,11 @@ class Network:
                 comp not in self.conns["target"].values
             ):
                 self.comps.drop(comp.label, inplace=True)
-                self.results[comp.__class__.__name__].drop(
-                    comp.label, inplace=True, errors="ignore"
-                )
+                comp_type = comp.__class__.__name__
+                if comp_type in self.results:
+                    self.results[comp_type].drop(
+                        comp.label, inplace=True, errors="ignore"
+                    )
                 msg = f"Deleted component {comp.label} from network."
                 logger.debug(msg)
 
-- 
2.43.0


From 84196b88fea37cd9957642fec7ec633fe012c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:34 +0000
Subject: [PATCH 29/35] fix: iteration which does not converge overwrites the
 specified values

The values of the last iteration replaced specified temperatures, pressure
ratios, powers etc., so that solving again converged to a different problem.
---
 src/tespy/networks/network.py | 36 ++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 87e6b1f..b39bb3f 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2496,13 +2496,43 @@ class Network:
 
     def postprocessing(self):
         r"""Calculate connection, bus and component parameters."""
-        self.process_connections()
-        self.process_components()
-        self.process_busses()
+        specifications = []
+        if not self.converged:
+            # the values of the last iteration do not meet the specifications
+            # and must not replace them
+            specifications = [
+                (data, data.val, getattr(data, 'val_SI', None))
+                for data in self._get_specified_parameters()
+            ]
+
+        try:
+            self.process_connections()
+            self.process_components()
+            self.process_busses()
+        finally:
+            for data, val, val_SI in specifications:
+                data.val = val
+                if val_SI is not None:
+                    data.val_SI = val_SI
 
         msg = 'Postprocessing complete.'
         logger.info(msg)
 
+    def _get_specified_parameters(self):
+        """Get the data containers holding values specified by the user."""
+        data = []
+        for c in self.conns['object']:
+            data += [
+                c.get_attr(key) for key in fpd if c.get_attr(key).is_set
+            ]
+        for cp in self.comps['object']:
+            data += [
+                p for p in cp.parameters.values()
+                if isinstance(p, dc_cp) and p.is_set and not p.is_var
+            ]
+        data += [b.P for b in self.busses.values() if b.P.is_set]
+        return data
+
     def process_connections(self):
         """Process the Connection results."""
         for c in self.conns['object']:
-- 
2.43.0


From 4453130f78c029e0d38d8a43d678764bab63968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:40 +0000
Subject: [PATCH 30/35] fix: back end or engine of a fluid can be changed after
 a simulation

---
 src/tespy/connections/connection.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 8f943cd..aca573e 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -271,6 +271,7 @@ class Connection:
         self.property_data0 = [x + '0' for x in self.property_data.keys()]
         self.__dict__.update(self.property_data)
         self.mixing_rule = None
+        self._wrapper_source = {}
         msg = (
             f"Created connection from {self.source.label} ({self.source_id}) "
             f"to {self.target.label} ({self.target_id})."
@@ -595,8 +596,6 @@ class Connection:
 
     def _create_fluid_wrapper(self):
         for fluid in self.fluid.val:
-            if fluid in self.fluid.wrapper:
-                continue
             if fluid not in self.fluid.engine:
                 self.fluid.engine[fluid] = CoolPropWrapper
 
@@ -606,7 +605,16 @@ class Connection:
             else:
                 self.fluid.back_end[fluid] = None
 
+            # the wrapper is kept unless engine or back end have been changed
+            source = (self.fluid.engine[fluid], back_end)
+            if (
+                fluid in self.fluid.wrapper
+                and self._wrapper_source.get(fluid, source) == source
+            ):
+                continue
+
             self.fluid.wrapper[fluid] = self.fluid.engine[fluid](fluid, back_end)
+            self._wrapper_source[fluid] = source
 
     def preprocess(self):
         self.num_eq = 0
-- 
2.43.0


From a1c265f677eafab8d49e84407f69f0e1859d4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:40 +0000
Subject: [PATCH 31/35] fix: vapour content, phase and boiling point distance
 of an earlier calculation

---
 src/tespy/connections/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index aca573e..58db5a5 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -913,6 +913,11 @@ class Connection:
         number_fluids = get_number_of_fluids(self.fluid_data)
         _converged = True
         if number_fluids > 1:
+            # these are not available for mixtures, drop values of an earlier
+            # calculation with a pure fluid
+            self.x.val_SI = np.nan
+            self.Td_bp.val_SI = np.nan
+            self.phase.val = np.nan
             h_from_T = h_mix_pT(self.p.val_SI, self.T.val_SI, self.fluid_data, self.mixing_rule)
             if abs(h_from_T - self.h.val_SI) > ERR ** .5 and abs((h_from_T - self.h.val_SI) / self.h.val_SI) > ERR ** .5:
                 self.T.val_SI = np.nan
@@ -953,7 +958,7 @@ class Connection:
                 if not self.Td_bp.is_set:
                     self.Td_bp.val_SI = self.calc_Td_bp()
             except ValueError:
-                self.x.val_SI = np.nan
+                self.Td_bp.val_SI = np.nan
 
         if _converged:
             self.vol.val_SI = self.calc_vol()
-- 
2.43.0


From 033c7a6c087cc26de0c5f9da42689ea0b1a6dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:57 +0000
Subject: [PATCH 32/35] fix: kA of simple heat exchangers with ambient
 temperature between or isothermal streams

---
 src/tespy/components/heat_exchangers/simple.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 336b303..ff003bc 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -548,9 +548,9 @@ class SimpleHeatExchanger(Component):
         if (ttd_1 / ttd_2) < 0:
             td_log = (ttd_2 + ttd_1) / 2
         elif ttd_1 > ttd_2:
-            td_log = (ttd_1 - ttd_2) / math.log(ttd_1 / ttd_2)
+            td_log = (ttd_1 - ttd_2) / math.log1p((ttd_1 - ttd_2) / ttd_2)
         elif ttd_1 < ttd_2:
-            td_log = (ttd_2 - ttd_1) / math.log(ttd_2 / ttd_1)
+            td_log = (ttd_2 - ttd_1) / math.log1p((ttd_2 - ttd_1) / ttd_1)
         else:
             # both values are equal
             td_log = ttd_2
@@ -662,9 +662,9 @@ class SimpleHeatExchanger(Component):
         if (ttd_1 / ttd_2) < 0:
             td_log = (ttd_2 + ttd_1) / 2
         elif ttd_1 > ttd_2:
-            td_log = (ttd_1 - ttd_2) / math.log(ttd_1 / ttd_2)
+            td_log = (ttd_1 - ttd_2) / math.log1p((ttd_1 - ttd_2) / ttd_2)
         elif ttd_1 < ttd_2:
-            td_log = (ttd_2 - ttd_1) / math.log(ttd_2 / ttd_1)
+            td_log = (ttd_2 - ttd_1) / math.log1p((ttd_2 - ttd_1) / ttd_1)
         else:
             # both values are equal
             td_log = ttd_2
@@ -895,12 +895,13 @@ class SimpleHeatExchanger(Component):
             ttd_1 = i.T.val_SI - self.Tamb.val_SI
             ttd_2 = o.T.val_SI - self.Tamb.val_SI
 
-            if (ttd_1 / ttd_2) < 0:
+            if ttd_1 * ttd_2 <= 0:
+                # ambient temperature in between of inlet and outlet
                 td_log = np.nan
-            if ttd_1 > ttd_2:
-                td_log = (ttd_1 - ttd_2) / math.log(ttd_1 / ttd_2)
+            elif ttd_1 > ttd_2:
+                td_log = (ttd_1 - ttd_2) / math.log1p((ttd_1 - ttd_2) / ttd_2)
             elif ttd_1 < ttd_2:
-                td_log = (ttd_2 - ttd_1) / math.log(ttd_2 / ttd_1)
+                td_log = (ttd_2 - ttd_1) / math.log1p((ttd_2 - ttd_1) / ttd_1)
             else:
                 # both values are equal
                 td_log = ttd_1
-- 
2.43.0


From eb712d179ed004cdabe31d3e4331612ab760a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:40 +0000
Subject: [PATCH 33/35] fix: bus value of components with efficiency
 characteristic based on the bus value

The derivative lacked the component's value, the iteration stopped far from the
solution without notice for steep characteristics.
---
 src/tespy/components/component.py | 2 ++
 src/tespy/tools/helpers.py        | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index f72daae..c904274 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -653,6 +653,8 @@ class Component:
                     val0=b['P_ref'],
                     valmin=-1e15,
                     valmax=1e15,
+                    tol_abs=1e-9 * abs(b['P_ref']),
+                    bisect=True,
                     **kwargs
                 )
                 return bus_value / b['P_ref']
diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index fef10f9..e451d58 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -504,7 +504,7 @@ def bus_char_evaluation(component_value, char_func, reference_value, bus_value,
 def bus_char_derivative(component_value, char_func, reference_value, bus_value, **kwargs):
     """Calculate derivative for bus char evaluation."""
     d = 1e-3
-    return (1 - (
+    return (1 - component_value * (
         1 / char_func.evaluate((bus_value + d) / reference_value) -
         1 / char_func.evaluate((bus_value - d) / reference_value)
     ) / (2 * d))
-- 
2.43.0


From 62b46e75ae77f20f14c3405103c7625077200fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:51 +0000
Subject: [PATCH 34/35] fix: water is not recognised in mixtures under the name
 "Water"

---
 src/tespy/tools/fluid_properties/mixtures.py | 3 ++-
 src/tespy/tools/fluid_properties/wrappers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/mixtures.py b/src/tespy/tools/fluid_properties/mixtures.py
index 8007aec..0fd2505 100644
--- a/src/tespy/tools/fluid_properties/mixtures.py
+++ b/src/tespy/tools/fluid_properties/mixtures.py
@@ -272,7 +272,8 @@ def exergy_chemical_ideal_cond(pamb, Tamb, fluid_data, Chem_Ex):
 
 
 def _water_in_mixture(fluid_data):
-    water_aliases = set(CP.CoolProp.get_aliases("H2O"))
+    # the list of aliases does not contain the name of the fluid itself
+    water_aliases = set(CP.CoolProp.get_aliases("H2O")) | {"Water"}
     return water_aliases & set([f for f in fluid_data if _is_larger_than_precision(fluid_data[f]["mass_fraction"])])
 
 
diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index 1820805..a2d345c 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -312,7 +312,8 @@ class IAPWSWrapper(FluidPropertyWrapper):
         super().__init__(fluid, back_end)
         self._aliases = CP.CoolProp.get_aliases("H2O")
 
-        if self.fluid not in self._aliases:
+        # the list of aliases does not contain the name of the fluid itself
+        if self.fluid != "Water" and self.fluid not in self._aliases:
             msg = "The iapws wrapper only supports water as fluid."
             raise ValueError(msg)
 
-- 
2.43.0


From 60361a38889dff3e0ab8ccf54ebc3e8339ed6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:02 +0000
Subject: [PATCH 35/35] fix: isentropic change of mixtures fails far from the
 default starting temperature

---
 src/tespy/tools/fluid_properties/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/functions.py b/src/tespy/tools/fluid_properties/functions.py
index dfa0f92..1056563 100644
--- a/src/tespy/tools/fluid_properties/functions.py
+++ b/src/tespy/tools/fluid_properties/functions.py
@@ -29,8 +29,9 @@ def isentropic(p_1, h_1, p_2, fluid_data, mixing_rule=None, T0=None):
         pure_fluid = get_pure_fluid(fluid_data)
         return pure_fluid["wrapper"].isentropic(p_1, h_1, p_2)
     else:
-        s_1 = s_mix_ph(p_1, h_1, fluid_data, mixing_rule)
-        T_2 = T_mix_ps(p_2, s_1, fluid_data, mixing_rule)
+        T_1 = T_mix_ph(p_1, h_1, fluid_data, mixing_rule, T0)
+        s_1 = s_mix_pT(p_1, T_1, fluid_data, mixing_rule)
+        T_2 = T_mix_ps(p_2, s_1, fluid_data, mixing_rule, T0=T_1)
         return h_mix_pT(p_2, T_2, fluid_data, mixing_rule)
 
 
-- 
2.43.0

