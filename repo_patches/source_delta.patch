From 5a360b4366d061ffc0c67a2445ad7bdbcf188f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 01/47] fix: keep lower bounds of investment flows with zeros
 in the minimum profile

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 51f5ef9..9f1cd41 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -144,7 +144,11 @@ class InvestmentFlowBlock(ScalarBlock):
         )
 
         self.MIN_INVESTFLOWS = Set(
-            initialize=[(g[0], g[1]) for g in group if g[2].minimum.min() != 0]
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].minimum.min() != 0 or g[2].minimum.max() != 0
+            ]
         )
 
         self.EXISTING_INVESTFLOWS = Set(
-- 
2.43.0


From 5dc57694f5be7962cc9e4dc83b0e5208dcc9a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 02/47] fix: weight typical periods in full load time limits of
 investment flows

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 9f1cd41..0ddf074 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -681,7 +681,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) <= (
                 m.flows[i, o].full_load_time_max
                 * sum(self.total[i, o, p] for p in m.PERIODS)
@@ -698,7 +699,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) >= (
                 sum(self.total[i, o, p] for p in m.PERIODS)
                 * m.flows[i, o].full_load_time_min
-- 
2.43.0


From e530d36170d44f132fb3af43a3abcd1ff1932904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 03/47] fix: charge the fixed part of multi-period flow
 investments as documented

---
 src/oemof/solph/flows/_investment_flow_block.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 0ddf074..abebfee 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -984,16 +984,12 @@ class InvestmentFlowBlock(ScalarBlock):
                     present_value_factor_remaining = 1 / economics.annuity(
                         capex=1, n=duration, wacc=interest
                     )
-                    annuity_offset = economics.annuity(
-                        capex=m.flows[i, o].investment.offset[p],
-                        n=lifetime,
-                        wacc=interest,
-                    )
                     investment_costs_increment = (
                         self.invest[i, o, p]
                         * annuity
                         * present_value_factor_remaining
-                        + self.invest_status[i, o, p] * annuity_offset
+                        + self.invest_status[i, o, p]
+                        * m.flows[i, o].investment.offset[p]
                     )
                     remaining_value_difference = (
                         self._evaluate_remaining_value_difference(
-- 
2.43.0


From 868c1cc08c8ecfbc038810c7df0ab978dcc67ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 04/47] fix: weight typical periods in startup costs

---
 src/oemof/solph/flows/_shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 6713750..f6085f2 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -569,6 +569,7 @@ def startup_costs(block):
                 startup_costs += sum(
                     block.startup[i, o, t]
                     * m.flows[i, o].nonconvex.startup_costs[t]
+                    * m.tsam_weighting[t]
                     for t in m.TIMESTEPS
                 )
 
-- 
2.43.0


From fe4ef7e1a028f42ca7a0bb46aa8996694cad49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 05/47] fix: use existing capacity of investment flows with
 on/off status

---
 .../flows/_invest_non_convex_flow_block.py    | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 9d04efb..a706d09 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -190,7 +190,8 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         The resulting constraint is equivalent to
 
         .. math::
-            status\_nominal(i,o,t) = Y_{status}(t) \cdot P_{invest}.
+            status\_nominal(i,o,t)
+            = Y_{status}(t) \cdot (P_{invest} + P_{exist}).
 
         However, :math:`status` and :math:`invest` are variables
         (binary and continuous, respectively).
@@ -212,10 +213,12 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         * Case :math:`status = 1`
             .. math::
                 (1) \Rightarrow \text{ trivially fulfilled},\\
-                (2) \Rightarrow status\_nominal \leq P_{invest},\\
-                (3) \Rightarrow status\_nominal \geq P_{invest}.
+                (2) \Rightarrow status\_nominal
+                \leq P_{invest} + P_{exist},\\
+                (3) \Rightarrow status\_nominal
+                \geq P_{invest} + P_{exist}.
 
-            So, in total :math:`status\_nominal = P_{invest}`,
+            So, in total :math:`status\_nominal = P_{invest} + P_{exist}`,
             which is the desired result.
         """
         self.invest_nc_one = self._linearised_investment_constraint_1()
@@ -226,13 +229,17 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         r"""
         .. math::
             status\_nominal(i,o,t)
-            \leq Y_{status}(t) \cdot P_{invest, max}\quad (1)
+            \leq Y_{status}(t) \cdot (P_{invest, max} + P_{exist})\quad (1)
         """
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_one(_, i, o, p, t):
             expr = (
-                self.status[i, o, t] * m.flows[i, o].investment.maximum[p]
+                self.status[i, o, t]
+                * (
+                    m.flows[i, o].investment.maximum[p]
+                    + m.flows[i, o].investment.existing
+                )
                 >= self.status_nominal[i, o, t]
             )
             return expr
@@ -246,13 +253,16 @@ class InvestNonConvexFlowBlock(ScalarBlock):
     def _linearised_investment_constraint_2(self):
         r"""
         .. math::
-            status\_nominal(i,o,t) \leq P_{invest}\quad (2)
+            status\_nominal(i,o,t) \leq P_{invest} + P_{exist}\quad (2)
         """
 
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_two(_, i, o, p, t):
-            expr = self.invest[i, o, p] >= self.status_nominal[i, o, t]
+            expr = (
+                self.invest[i, o, p] + m.flows[i, o].investment.existing
+                >= self.status_nominal[i, o, t]
+            )
             return expr
 
         return Constraint(
@@ -265,7 +275,8 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         r"""
         .. math::
             status\_nominal(i,o,t) \geq
-            P_{invest} - (1 - Y_{status}(t)) \cdot P_{invest, max}\quad (3)
+            P_{invest} + P_{exist} - (1 - Y_{status}(t))
+            \cdot (P_{invest, max} + P_{exist})\quad (3)
         """
 
         m = self.parent_block()
@@ -273,8 +284,12 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         def _linearization_rule_invest_non_convex_three(_, i, o, p, t):
             expr = (
                 self.invest[i, o, p]
+                + m.flows[i, o].investment.existing
                 - (1 - self.status[i, o, t])
-                * m.flows[i, o].investment.maximum[p]
+                * (
+                    m.flows[i, o].investment.maximum[p]
+                    + m.flows[i, o].investment.existing
+                )
                 <= self.status_nominal[i, o, t]
             )
             return expr
-- 
2.43.0


From 2e4510f9a406c5f7a1a9501b83f7b9c80d410a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 06/47] fix: keep initial status of investment flows during
 minimum up/downtime

---
 src/oemof/solph/flows/_invest_non_convex_flow_block.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index a706d09..d8a75ab 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -124,6 +124,15 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.status = Var(
             self.INVEST_NON_CONVEX_FLOWS, m.TIMESTEPS, within=Binary
         )
+        for o, i in self.INVEST_NON_CONVEX_FLOWS:
+            if m.flows[o, i].nonconvex.initial_status is not None:
+                for t in range(
+                    0, m.flows[o, i].nonconvex.first_flexible_timestep
+                ):
+                    self.status[o, i, t] = m.flows[
+                        o, i
+                    ].nonconvex.initial_status
+                    self.status[o, i, t].fix()
 
         _shared.variables_for_non_convex_flows(self)
 
-- 
2.43.0


From 89f47800d69f197eda56460d0a126124f16ed34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 07/47] fix: enforce minimum up/downtime from the first
 flexible time step on

---
 src/oemof/solph/flows/_shared.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index f6085f2..249f03f 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -215,15 +215,21 @@ def _min_downtime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
+            and m.flows[i, o].nonconvex.minimum_downtime[t] > 0
         ):
             # We have a 2D matrix of constraints,
             # so testing is easier then just calling the rule for valid t.
 
+            if t > m.TIMESTEPS.at(1):
+                previous_status = block.status[i, o, t - 1]
+            else:
+                previous_status = m.flows[i, o].nonconvex.initial_status
+
             expr = 0
             expr += (
-                block.status[i, o, t - 1] - block.status[i, o, t]
+                previous_status - block.status[i, o, t]
             ) * m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += -m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += sum(
@@ -269,14 +275,20 @@ def _min_uptime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
+            and m.flows[i, o].nonconvex.minimum_uptime[t] > 0
         ):
             # We have a 2D matrix of constraints,
             # so testing is easier then just calling the rule for valid t.
+            if t > m.TIMESTEPS.at(1):
+                previous_status = block.status[i, o, t - 1]
+            else:
+                previous_status = m.flows[i, o].nonconvex.initial_status
+
             expr = 0
             expr += (
-                block.status[i, o, t] - block.status[i, o, t - 1]
+                block.status[i, o, t] - previous_status
             ) * m.flows[i, o].nonconvex.minimum_uptime[t]
             expr += -sum(
                 block.status[i, o, u]
-- 
2.43.0


From daeeb3b498562be4ebe9a6287859423efaa63b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 08/47] fix: scale offset of OffsetConverter helpers with the
 maximum load

---
 src/oemof/solph/components/_offset_converter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 4c161b6..d0011ab 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -63,7 +63,7 @@ class OffsetConverter(Node):
         m = \frac{l_\text{max}/\eta_\text{max}-l_\text{min}/\eta_\text{min}}
         {l_\text{max}-l_\text{min}}
 
-        y_\text{0,normed} = \frac{1}{\eta_{max}} - m
+        y_\text{0,normed} = l_\text{max} \cdot (\frac{1}{\eta_{max}} - m)
 
     Where :math:`l_{max}` and :math:`l_{min}` are the maximum and minimum
     partload share (e.g. 1.0 and 0.5) with reference to the `NonConvex` flow
@@ -527,7 +527,8 @@ def slope_offset_from_nonconvex_input(
             - \text{min} \cdot \eta_\text{at min}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \eta_\text{at,max} - \text{slope}
+        \text{offset} = \text{max}
+        \cdot (\eta_\text{at,max} - \text{slope})
 
     Parameters
     ----------
@@ -580,7 +581,7 @@ def slope_offset_from_nonconvex_input(
     slope = (max_load * eta_at_max - min_load * eta_at_min) / (
         max_load - min_load
     )
-    offset = eta_at_max - slope
+    offset = max_load * (eta_at_max - slope)
     return slope, offset
 
 
@@ -604,7 +605,8 @@ def slope_offset_from_nonconvex_output(
             - \frac{\text{min}}{\eta_\text{at min}}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \frac{1}{\eta_\text{at,max}} - \text{slope}
+        \text{offset} = \text{max}
+        \cdot (\frac{1}{\eta_\text{at,max}} - \text{slope})
 
     Parameters
     ----------
@@ -657,5 +659,5 @@ def slope_offset_from_nonconvex_output(
     slope = (max_load / eta_at_max - min_load / eta_at_min) / (
         max_load - min_load
     )
-    offset = 1 / eta_at_max - slope
+    offset = max_load * (1 / eta_at_max - slope)
     return slope, offset
-- 
2.43.0


From e6fa95e2462305597e980731f85f499af0531ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 09/47] fix: apply minimum flue gas losses of GenericCHP

---
 src/oemof/solph/components/_generic_chp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 572b200..b22c176 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -492,8 +492,8 @@ class GenericCHPBlock(ScalarBlock):
         def _H_L_FG_min_rule(block, n, t):
             """Set min. flue gas loss as fuel flow share."""
             # minimum flue gas losses e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if "H_L_FG_share_min" in (
+                list(n.fuel_input.values())[0].custom_properties
             ):
                 expr = 0
                 expr += -self.H_L_FG_min[n, t]
@@ -514,13 +514,16 @@ class GenericCHPBlock(ScalarBlock):
         def _Q_min_res_rule(block, n, t):
             """Set minimum Q depending on fuel and eletrical flow."""
             # minimum restriction for heat flows e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if "H_L_FG_share_min" in (
+                list(n.fuel_input.values())[0].custom_properties
             ):
                 expr = 0
                 expr += self.P[n, t] + self.Q[n, t] + self.H_L_FG_min[n, t]
                 expr += (
-                    list(n.heat_output.values())[0].Q_CW_min[t] * self.Y[n, t]
+                    list(n.heat_output.values())[0].custom_properties[
+                        "Q_CW_min"
+                    ][t]
+                    * self.Y[n, t]
                 )
                 expr += -self.H_F[n, t]
                 return expr >= 0
-- 
2.43.0


From c43fc14e1907e700fd0135a985a33da59938e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 10/47] fix: apply self-discharge of storages consistently
 within and between typical periods

---
 .../solph/components/_generic_storage.py      | 47 +++++++++----------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index fa9b6f1..77e4111 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -428,6 +428,18 @@ class GenericStorage(Node):
             return GenericStorageBlock
 
 
+def _remaining_share(m, n, p, k, timesteps):
+    """
+    Share of the content of storage n that is left after the first
+    `timesteps` time steps of typical period (p, k) due to the loss rate.
+    """
+    t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
+    return math.prod(
+        (1 - n.loss_rate[t]) ** m.timeincrement[t]
+        for t in range(t0, t0 + timesteps)
+    )
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -655,7 +667,6 @@ class GenericStorageBlock(ScalarBlock):
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -665,7 +676,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     rhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _remaining_share(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     self.storage_inter_minimum_level.add(
@@ -686,7 +697,6 @@ class GenericStorageBlock(ScalarBlock):
                 for p, i, g in m.TIMEINDEX_CLUSTER:
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -696,7 +706,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     lhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _remaining_share(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     rhs = n.nominal_storage_capacity * n.max_storage_level[t]
@@ -799,15 +809,8 @@ class GenericStorageBlock(ScalarBlock):
             k = m.es.tsa_parameters[p]["order"][ii]
 
             # Calculate inter losses over whole typical period
-            t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
-            losses = math.prod(
-                (
-                    (1 - n.loss_rate[t0 + s])
-                    ** m.es.tsa_parameters[p]["segments"][(k, s)]
-                    if "segments" in m.es.tsa_parameters[p]
-                    else 1 - n.loss_rate[t0 + s]
-                )
-                for s in range(m.es.tsa_parameters[p]["timesteps"])
+            losses = _remaining_share(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
 
             expr = 0
@@ -1918,14 +1921,12 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     break
 
             k = m.es.tsa_parameters[p]["order"][ii]
-            t = m.get_timestep_from_tsam_timestep(
-                p, k, m.es.tsa_parameters[p]["timesteps"] - 1
-            )
             expr = 0
-            expr += block.inter_storage_content[n, i + 1]
-            expr += -block.inter_storage_content[n, i] * (
-                1 - n.loss_rate[t]
-            ) ** (m.timeincrement[t] * m.es.tsa_parameters[p]["timesteps"])
+            expr += block.inter_storage_content[
+                n, i + 1
+            ] - block.inter_storage_content[n, i] * _remaining_share(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
+            )
             expr += -self.intra_storage_delta[
                 n, p, k, m.es.tsa_parameters[p]["timesteps"]
             ]
@@ -2170,7 +2171,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     for p, i, g in m.TIMEINDEX_CLUSTER:
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2180,7 +2180,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         lhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _remaining_share(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         rhs = self.total[n, p] * n.max_storage_level[t]
@@ -2205,7 +2205,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2215,7 +2214,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         rhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _remaining_share(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         self.storage_inter_minimum_level.add(
-- 
2.43.0


From 22b8354b8e0d693dc3c591deaf416e6e27bd1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 11/47] fix: limit the initial content of investment storages
 with typical periods

---
 src/oemof/solph/components/_generic_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 77e4111..11d792e 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1820,7 +1820,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs <= n.investment.existing + block.invest[n, 0]
 
             self.init_content_limit = Constraint(
@@ -1833,7 +1833,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs == n.initial_storage_level * (
                     n.investment.existing + block.invest[n, 0]
                 )
-- 
2.43.0


From c5f0ccedffc9dc7e8968d38d39d4fca25ab56689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 12/47] fix: locate time steps of typical periods for periods
 of different length

---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 093eaeb..b394cb1 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -516,7 +516,7 @@ class Model(po.ConcreteModel):
     def get_timestep_from_tsam_timestep(self, p, ik, g):
         """Return original timestep from cluster-based timestep"""
         t = (
-            p * len(self.TIMESTEPS_IN_PERIOD[p])
+            sum(len(self.TIMESTEPS_IN_PERIOD[ip]) for ip in range(p))
             + ik * self.es.tsa_parameters[p]["timesteps"]
             + g
         )
-- 
2.43.0


From 4f492f1ffe656ce407ce0cd099019c1dfeff285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 13/47] fix: keep minimum level of investment storages given
 for the last time point only

---
 src/oemof/solph/components/_generic_storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 11d792e..a8fd741 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1514,12 +1514,16 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
         # The storage content is a non-negative variable, therefore it makes no
         # sense to create an additional constraint if the lower bound is zero
-        # for all time steps.
+        # for all time points with a limit.
+        if m.es.periods is None and not m.TSAM_MODE:
+            level_index = m.TIMEPOINTS
+        else:
+            level_index = m.TIMESTEPS
         self.MIN_INVESTSTORAGES = Set(
             initialize=[
                 n
                 for n in group
-                if sum([n.min_storage_level[t] for t in m.TIMESTEPS]) > 0
+                if sum([n.min_storage_level[t] for t in level_index]) > 0
             ]
         )
 
-- 
2.43.0


From 8727c9cbb8c76ec7a3450b89749d23abb4ce4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 14/47] fix: limit the final content of multi-period investment
 storages by their capacity

---
 src/oemof/solph/components/_generic_storage.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index a8fd741..1a9ff3c 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -2152,6 +2152,23 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     rule=_max_storage_content_invest_rule,
                 )
 
+                def _max_final_storage_content_invest_rule(_, n):
+                    """
+                    Rule definition for upper bound constraint for the
+                    storage content after the last time step.
+                    """
+                    expr = (
+                        self.storage_content[n, m.TIMEPOINTS.at(-1)]
+                        <= self.total[n, m.PERIODS.at(-1)]
+                        * n.max_storage_level[m.TIMESTEPS.at(-1)]
+                    )
+                    return expr
+
+                self.max_final_storage_content = Constraint(
+                    self.INVESTSTORAGES,
+                    rule=_max_final_storage_content_invest_rule,
+                )
+
                 def _min_storage_content_invest_rule(_, n, p, t):
                     """
                     Rule definition of lower bound constraint for the
-- 
2.43.0


From 0a24acc30eb010d8e71c62731637500fc4a96328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 15/47] fix: weight typical periods in integral and emission
 limits

---
 src/oemof/solph/constraints/integral_limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 679e17a..3f2b30d 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -165,6 +165,7 @@ def generic_integral_limit(
             expr=sum(
                 om.flow[i, o, t]
                 * om.timeincrement[t]
+                * om.tsam_weighting[t]
                 * sequence(flows[i, o].custom_properties[keyword])[t]
                 for (i, o) in flows
                 for t in om.TIMESTEPS
@@ -251,6 +252,7 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
         expr = sum(
             om.flow[i, o, t]
             * om.timeincrement[t]
+            * om.tsam_weighting[t]
             * sequence(flows[i, o].custom_properties[keyword])[t]
             for (i, o) in flows
             for t in m.TIMESTEPS_IN_PERIOD[p]
-- 
2.43.0


From edb56498399ec7316431eed8da3eb07024fe73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 16/47] fix: keep periodical integral limits of several
 keywords

---
 src/oemof/solph/constraints/integral_limit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 3f2b30d..3c13eb5 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -16,6 +16,7 @@ SPDX-License-Identifier: MIT
 import warnings
 
 from pyomo import environ as po
+from pyomo.common.modeling import unique_component_name
 
 from oemof.solph._plumbing import sequence
 
@@ -260,10 +261,11 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
         return expr <= limit[p]
 
-    om.periodical_integral_limit = po.Constraint(
-        om.PERIODS,
-        rule=_periodical_integral_limit_rule,
-        name=limit_name + "_constraint",
+    # do not replace the limit set for another keyword
+    setattr(
+        om,
+        unique_component_name(om, "periodical_integral_limit"),
+        po.Constraint(om.PERIODS, rule=_periodical_integral_limit_rule),
     )
 
     return om
-- 
2.43.0


From e81fade0e12c2075a1565e71a4fb5e776ed578db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 17/47] fix: consider all investments in the budgets for
 investments

---
 src/oemof/solph/constraints/integral_limit.py |  1 -
 .../solph/constraints/investment_limit.py     | 22 ++++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 3c13eb5..8a6cfb0 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -229,7 +229,6 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
     """
     flows = _check_and_set_flows(om, flows, keyword)
-    limit_name = "integral_limit_" + keyword
 
     if om.es.periods is None:
         msg = (
diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index bbf5e83..49f4675 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -35,11 +35,14 @@ def investment_limit(model, limit=None):
     def investment_rule(m):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
-            expr += m.InvestmentFlowBlock.investment_costs
-
-        if hasattr(m, "GenericInvestmentStorageBlock"):
-            expr += m.GenericInvestmentStorageBlock.investment_costs
+        # (blocks without any investment do not define costs)
+        for block in (
+            "InvestmentFlowBlock",
+            "InvestNonConvexFlowBlock",
+            "GenericInvestmentStorageBlock",
+        ):
+            if hasattr(m, block):
+                expr += getattr(getattr(m, block), "investment_costs", 0)
 
         if hasattr(m, "SinkDSMOemofInvestmentBlock"):
             expr += m.SinkDSMOemofInvestmentBlock.investment_costs
@@ -96,11 +99,10 @@ def investment_limit_per_period(model, limit=None):
     def investment_period_rule(m, p):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
-            expr += m.InvestmentFlowBlock.period_investment_costs[p]
-
-        if hasattr(m, "GenericInvestmentStorageBlock"):
-            expr += m.GenericInvestmentStorageBlock.period_investment_costs[p]
+        # (blocks without any investment do not define costs)
+        for block in ("InvestmentFlowBlock", "GenericInvestmentStorageBlock"):
+            if hasattr(getattr(m, block, None), "period_investment_costs"):
+                expr += getattr(m, block).period_investment_costs[p]
 
         if hasattr(m, "SinkDSMOemofInvestmentBlock"):
             expr += m.SinkDSMOemofInvestmentBlock.period_investment_costs[p]
-- 
2.43.0


From 69b90cca91aceadfc4fbed96e47b88de1f231c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 18/47] fix: weighted investment limit for on/off flows and
 flows without custom properties

---
 src/oemof/solph/constraints/investment_limit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index 49f4675..cd9c7be 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -206,18 +206,24 @@ def additional_investment_flow_limit(model, keyword, limit=None):
     for i, o in model.flows:
         if (
             model.flows[i, o].investment is not None
-            and keyword in model.flows[i, o].investment.custom_properties
+            and keyword
+            in (model.flows[i, o].investment.custom_properties or {})
         ):
             investments[(i, o)] = model.flows[i, o].investment
 
     limit_name = "invest_limit_" + keyword
 
+    def _invest(i, o, p):
+        if model.flows[i, o].nonconvex is not None:
+            return model.InvestNonConvexFlowBlock.invest[i, o, p]
+        return model.InvestmentFlowBlock.invest[i, o, p]
+
     setattr(
         model,
         limit_name,
         po.Expression(
             expr=sum(
-                model.InvestmentFlowBlock.invest[i, o, p]
+                _invest(i, o, p)
                 * investments[i, o].custom_properties[keyword]
                 for (i, o) in investments
                 for p in model.PERIODS
-- 
2.43.0


From 4d42a3bc35fe4514870bc2f96d7cb2314eb6e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 19/47] fix: count active flows with optimised capacity, too

---
 src/oemof/solph/constraints/flow_count_limit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/constraints/flow_count_limit.py b/src/oemof/solph/constraints/flow_count_limit.py
index a57e9eb..6be8b86 100644
--- a/src/oemof/solph/constraints/flow_count_limit.py
+++ b/src/oemof/solph/constraints/flow_count_limit.py
@@ -78,11 +78,14 @@ def limit_active_flow_count(
 
     attrname_constraint = constraint_name + "_constraint"
 
+    def _status(m, fi, fo):
+        if m.flows[fi, fo].investment is not None:
+            return m.InvestNonConvexFlowBlock.status
+        return m.NonConvexFlowBlock.status
+
     def _flow_count_rule(m):
         for ts in m.TIMESTEPS:
-            lhs = sum(
-                m.NonConvexFlowBlock.status[fi, fo, ts] for fi, fo in flows
-            )
+            lhs = sum(_status(m, fi, fo)[fi, fo, ts] for fi, fo in flows)
             rhs = getattr(model, constraint_name)[ts]
             expr = lhs == rhs
             if expr is not True:
@@ -130,8 +133,8 @@ def limit_active_flow_count_by_keyword(
     limit_active_flow_count
     """
     flows = []
-    for i, o in model.NonConvexFlowBlock.FIXED_CAPACITY_NONCONVEX_FLOWS:
-        if keyword in model.flows[i, o].custom_properties:
+    for (i, o), flow in model.flows.items():
+        if flow.nonconvex is not None and keyword in flow.custom_properties:
             flows.append((i, o))
 
     return limit_active_flow_count(
-- 
2.43.0


From faabb16457ccc09c9d0cb2040462c278649d9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 20/47] fix: equate flows given as iterators for all time steps

---
 src/oemof/solph/constraints/equate_flows.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oemof/solph/constraints/equate_flows.py b/src/oemof/solph/constraints/equate_flows.py
index 84b20d8..2f52b7a 100644
--- a/src/oemof/solph/constraints/equate_flows.py
+++ b/src/oemof/solph/constraints/equate_flows.py
@@ -42,6 +42,10 @@ def equate_flows(model, flows1, flows2, factor1=1, name="equate_flows"):
     the updated model.
     """
 
+    # (iterators could only be used for one time step)
+    flows1 = list(flows1)
+    flows2 = list(flows2)
+
     def _equate_flow_groups_rule(m):
         for ts in m.TIMESTEPS:
             sum1_t = sum(m.flow[fi, fo, ts] for fi, fo in flows1)
-- 
2.43.0


From 928d88eeb8a5c04a4b2c20a9e8d14ee58cb5577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 21/47] fix: storage level constraint with typical periods

---
 src/oemof/solph/constraints/storage_level.py | 46 +++++++++-----------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index 5feba7f..feffb46 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -9,6 +9,8 @@ SPDX-License-Identifier: MIT
 
 from pyomo import environ as po
 
+from oemof.solph.components._generic_storage import _remaining_share
+
 
 def storage_level_constraint(
     model,
@@ -45,6 +47,20 @@ def storage_level_constraint(
     Verbose description can be found in https://arxiv.org/abs/2211.14080
     """
 
+    def _content_tsam(m, p, i, k, g):
+        """Storage content at time point g of the i-th original period,
+        which is represented by typical period k."""
+        inter_i = i + sum(
+            len(m.es.tsa_parameters[ip]["order"]) for ip in range(p)
+        )
+        return m.GenericStorageBlock.inter_storage_content[
+            storage_component, inter_i
+        ] * _remaining_share(
+            m, storage_component, p, k, g
+        ) + m.GenericStorageBlock.intra_storage_delta[
+            storage_component, p, k, g
+        ]
+
     def _outputs():
         OUTPUTS = po.Set(initialize=output_levels.keys())
         setattr(model, f"{name}_OUTPUTS", OUTPUTS)
@@ -126,21 +142,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for o in output_levels:
                     getattr(m, constraint_name).add(
                         (o, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content_tsam(m, p, i, k, g + 1)
                         / storage_component.nominal_storage_capacity
                         >= active_output[o, p, k, g] * output_levels[o],
                     )
@@ -164,7 +169,7 @@ def storage_level_constraint(
         def _constraint_output_rule(m, o, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[multiplexer_bus, o, p, t]
+                m.flow[multiplexer_bus, o, t]
                 / m.flows[multiplexer_bus, o].nominal_capacity
                 <= active_output[o, p, k, g]
             )
@@ -268,21 +273,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for inp in input_levels:
                     getattr(m, constraint_name).add(
                         (inp, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content_tsam(m, p, i, k, g)
                         / storage_component.nominal_storage_capacity
                         - input_levels[inp]
                         <= inactive_input[inp, p, k, g],
@@ -307,7 +301,7 @@ def storage_level_constraint(
         def _constraint_input_rule(m, i, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[i, multiplexer_bus, p, t]
+                m.flow[i, multiplexer_bus, t]
                 / m.flows[i, multiplexer_bus].nominal_capacity
                 <= 1 - inactive_input[i, p, k, g]
             )
-- 
2.43.0


From d73575bf77b6415812f57ab74405405251028d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 22/47] fix: results of multi-period models and models with
 typical periods

---
 src/oemof/solph/_results.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index efb7309..815513c 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -152,9 +152,13 @@ class Results:
             index_type = tuple(dataset.index_set().subsets())[-1].name
             match index_type:
                 case "TIMEPOINTS":
-                    rv.index = self._model.es.timeindex
+                    # (multi-period models have no final time point)
+                    if len(rv) == len(self._model.es.timeindex):
+                        rv.index = self._model.es.timeindex
+                    else:
+                        rv.index = rv.index.get_level_values(-1)
                 case "TIMESTEPS":
-                    rv.index = self._model.es.timeindex[:-1]
+                    rv.index = self._model.es.timeindex[: len(rv)]
                 case _:
                     rv.index = rv.index.get_level_values(-1)
         else:
-- 
2.43.0


From a3604873868ac46038677fc547b062c92917e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 23/47] fix: offset in results for investment costs only if
 investing

---
 src/oemof/solph/_results.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 815513c..f76d587 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -205,6 +205,14 @@ class Results:
         except KeyError:  # no investments
             return pd.DataFrame()
 
+        # The offset only applies if an (optional) investment is made.
+        invest_status = {}
+        if "invest_status" in self._variables:
+            status_values = self["invest_status"]
+            invest_status = dict(
+                zip(status_values.columns, status_values.iloc[0])
+            )
+
         # Initialize an empty dictionary to collect results
         capex_data = {}
 
@@ -230,6 +238,7 @@ class Results:
                                 self._model.flows[i, o].investment.ep_costs[0]
                                 * invest_size
                                 + self._model.flows[i, o].investment.offset[0]
+                                * invest_status.get(col, 1)
                             )
 
                             # Save values to dictionary
@@ -255,6 +264,7 @@ class Results:
                             investment_costs = (
                                 node.investment.ep_costs[0] * invest_size
                                 + node.investment.offset[0]
+                                * invest_status.get(col, 1)
                             )
 
                             # Save values to dictionary
-- 
2.43.0


From d216c8ae8eac3cb416aa606ce67a655efe17f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 24/47] fix: results for variable costs for time steps of any
 length

---
 src/oemof/solph/_results.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index f76d587..48ac166 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -284,8 +284,14 @@ class Results:
         flow_values = self.get("flow", pd.DataFrame())
 
         for i, o in self._model.FLOWS:
-            # access the variable costs of each flow
-            variable_costs = self._model.flows[i, o].variable_costs
+            # access the variable costs of each flow, which are per energy
+            # (and weighted as they are in the objective)
+            variable_costs = [
+                self._model.flows[i, o].variable_costs[t]
+                * self._model.objective_weighting[t]
+                * self._model.tsam_weighting[t]
+                for t in self._model.TIMESTEPS
+            ]
 
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
-- 
2.43.0


From 86f1d46b815169d6fb72bc4181712475adbdfd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 25/47] fix: compare lengths of sequences by value

---
 src/oemof/solph/_plumbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 4459b31..908639a 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -60,10 +60,10 @@ def sequence(iterable_or_scalar, length=None):
     if iterable_or_scalar is None:
         return None
     if isinstance(iterable_or_scalar, abc.Iterable):
-        if length and length is not len(iterable_or_scalar):
+        if length and length != len(iterable_or_scalar):
             raise ValueError(
                 f"Length mismatch: Cannot create sequence of length {length}"
-                + " from input {iterable_or_scalar}."
+                + f" from input {iterable_or_scalar}."
             )
         else:
             if isinstance(iterable_or_scalar, str):
-- 
2.43.0


From c5d9876f052188b5b7feb24d01ddd02fc389a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 26/47] fix: find every key of the results using in and get

---
 src/oemof/solph/_results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 48ac166..4fa36a8 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -129,6 +129,8 @@ class Results:
             rv = self._calc_variable_costs()
         elif key == "investment_costs":
             rv = self._calc_capex()
+        elif key in self._meta_results:
+            rv = self._meta_results[key]
         elif key in self._variables:
             rv = []
             for occurence in self._variables[key]:
@@ -344,4 +346,4 @@ class Results:
             return rv
 
     def __contains__(self, key: Hashable) -> bool:
-        return key in self._solver_results or key in self._variables
+        return key in self.keys()
-- 
2.43.0


From aa4d86bfd038c791f7dd24c78ff25f6ce07b43d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 27/47] fix: content of storages in results of models with
 typical periods

---
 src/oemof/solph/processing.py | 44 +++++++++++++----------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index db1439c..6770ed8 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -18,7 +18,6 @@ SPDX-License-Identifier: MIT
 
 import itertools
 import numbers
-import operator
 import sys
 from collections import abc
 from itertools import groupby
@@ -32,6 +31,7 @@ from pyomo.core.base.piecewise import IndexedPiecewise
 from pyomo.core.base.var import Var
 
 from oemof.solph.components._generic_storage import GenericStorage
+from oemof.solph.components._generic_storage import _remaining_share
 
 from ._plumbing import _FakeSequence
 from .helpers import flatten
@@ -281,7 +281,9 @@ def results(model, remove_last_time_point=False):
             result_index = model.es.timeindex
 
     if model.es.tsa_parameters is not None:
-        df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
+        df_dict = _disaggregate_tsa_result(
+            df_dict, model.es.tsa_parameters, model
+        )
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -457,7 +459,7 @@ def _extract_multi_period_model_result(
     return result
 
 
-def _disaggregate_tsa_result(df_dict, tsa_parameters):
+def _disaggregate_tsa_result(df_dict, tsa_parameters, model=None):
     """
     Disaggregate timeseries aggregated by TSAM
 
@@ -475,6 +477,8 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     tsa_parameters : list-of-dicts
         TSAM parameters holding order, occurrences and timsteps_per_period for
         each period
+    model : oemof.solph.Model
+        The optimization model (only needed if there are storages)
 
     Returns
     -------
@@ -539,7 +543,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     # Add storage SOC flows:
     for storage, soc in storages.items():
         flow_dict[(storage, None)] = _calculate_soc_from_inter_and_intra_soc(
-            soc, storage, tsa_parameters
+            soc, storage, tsa_parameters, model
         )
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
@@ -592,17 +596,17 @@ def _disaggregate_segmentation(
     return disaggregated_data
 
 
-def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
+def _calculate_soc_from_inter_and_intra_soc(
+    soc, storage, tsa_parameters, model
+):
     """Calculate resulting SOC from inter and intra SOC flows"""
     soc_frames = []
     i_offset = 0
-    t_offset = 0
     for p, tsa_period in enumerate(tsa_parameters):
         for i, k in enumerate(tsa_period["order"]):
             inter_value = soc["inter"].iloc[i_offset + i]["value"]
             # Self-discharge has to be taken into account for calculating
             # inter SOC for each timestep in cluster
-            t0 = t_offset + i * tsa_period["timesteps"]
             # Add last timesteps of simulation in order to interpolate SOC for
             # last segment correctly:
             is_last_timestep = (
@@ -614,26 +618,11 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
                 if is_last_timestep
                 else tsa_period["timesteps"]
             )
-            inter_series = (
-                pd.Series(
-                    itertools.accumulate(
-                        (
-                            (
-                                (1 - storage.loss_rate[t])
-                                ** tsa_period["segments"][(k, t - t0)]
-                                if "segments" in tsa_period
-                                else 1 - storage.loss_rate[t]
-                            )
-                            for t in range(
-                                t0,
-                                t0 + timesteps - 1,
-                            )
-                        ),
-                        operator.mul,
-                        initial=1,
-                    )
-                )
-                * inter_value
+            inter_series = pd.Series(
+                [
+                    _remaining_share(model, storage, p, k, g) * inter_value
+                    for g in range(timesteps)
+                ]
             )
             intra_series = soc["intra"][(p, k)].iloc[0:timesteps]
             soc_frame = pd.DataFrame(
@@ -657,7 +646,6 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
 
             soc_frames.append(soc_frame)
         i_offset += len(tsa_period["order"])
-        t_offset += i_offset * tsa_period["timesteps"]
     soc_ts = pd.concat(soc_frames)
 
     soc_ts["timestep"] = range(len(soc_ts))
-- 
2.43.0


From b04feb31bcabccd11a4ef4edd0384b1d29792f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 28/47] fix: time index of storages in multi-period results

---
 src/oemof/solph/processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 6770ed8..b4c7c3e 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -201,6 +201,7 @@ def set_sequences_index(df, result_index):
             df.index = result_index
         except ValueError:
             raise ValueError("Results extraction failed!")
+    return df
 
 
 def results(model, remove_last_time_point=False):
@@ -437,9 +438,9 @@ def _extract_multi_period_model_result(
             :, [col for col in df_dict[k].columns if col not in period_cols]
         ]
         if remove_last_time_point:
-            set_sequences_index(sequences, result_index[:-1])
+            sequences = set_sequences_index(sequences, result_index[:-1])
         else:
-            set_sequences_index(sequences, result_index)
+            sequences = set_sequences_index(sequences, result_index)
         if period_scalars.empty:
             period_scalars = pd.DataFrame(index=d.values())
         try:
-- 
2.43.0


From 142e4069a6cb3616db34d7fccfd9b846777477fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 29/47] fix: status of optional investments in multi-period
 results

---
 src/oemof/solph/processing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index b4c7c3e..21036a8 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -299,12 +299,10 @@ def results(model, remove_last_time_point=False):
 
     # Results extraction for a multi-period model
     else:
-        period_indexed = ["invest", "total", "old", "old_end", "old_exo"]
-
         result = _extract_multi_period_model_result(
             model,
             df_dict,
-            period_indexed,
+            PERIOD_INDEXES,
             result,
             result_index,
             remove_last_time_point,
-- 
2.43.0


From 5d2397e08904359f9cc05be872042f77cba7a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:14 +0000
Subject: [PATCH 30/47] fix: keep results of last interval if there is no last
 time point

---
 src/oemof/solph/processing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 21036a8..1e330d8 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -286,6 +286,11 @@ def results(model, remove_last_time_point=False):
             df_dict, model.es.tsa_parameters, model
         )
 
+    # There is no last time point that could be removed from the index of
+    # models with typical periods and (usually) of multi-period models.
+    if model.es.tsa_parameters or len(result_index) == len(model.TIMESTEPS):
+        remove_last_time_point = False
+
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
     result = {}
-- 
2.43.0


From 2285a32341fb4f3fabfb107c5b97fba1eba8bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 31/47] fix: results of storage level constraints with segments

---
 src/oemof/solph/processing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 1e330d8..e08390b 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -665,11 +665,15 @@ def _calculate_multiplexer_actives(values, multiplexer, tsa_parameters):
     for p, tsa_period in enumerate(tsa_parameters):
         for i, k in enumerate(tsa_period["order"]):
             timesteps = tsa_period["timesteps"]
-            actives_frames.append(
-                pd.DataFrame(
-                    values[(p, k)].iloc[0:timesteps], columns=["value"]
-                )
+            actives_frame = pd.DataFrame(
+                values[(p, k)].iloc[0:timesteps], columns=["value"]
             )
+            # Disaggregate segmentation if used
+            if "segments" in tsa_period:
+                actives_frame = _disaggregate_segmentation(
+                    actives_frame, tsa_period["segments"], k
+                ).ffill()
+            actives_frames.append(actives_frame)
     actives_frames_ts = pd.concat(actives_frames)
     actives_frames_ts["variable_name"] = values[(p, k)][
         "variable_name"
-- 
2.43.0


From c0e0b70b419d1e6cd497d6438c4ee7cd14b201e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 32/47] fix: net flow of storages for models with typical
 periods

---
 src/oemof/solph/views.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/views.py b/src/oemof/solph/views.py
index 904838e..e2cfb60 100644
--- a/src/oemof/solph/views.py
+++ b/src/oemof/solph/views.py
@@ -398,12 +398,13 @@ def net_storage_flow(results, node_type):
 
     df = convert_to_multiindex(group)
 
-    if "storage_content" not in df.columns.get_level_values(2).unique():
+    # The content is called "soc" if typical periods are used.
+    labels = [
+        s for s, t, u in df.columns.values if u in ("storage_content", "soc")
+    ]
+    if not labels:
         return None
 
-    x = df.xs("storage_content", axis=1, level=2).columns.values
-    labels = [s for s, t in x]
-
     dataframes = []
 
     for lb in labels:
-- 
2.43.0


From 8e225537f51202f6afb1f18a70170915a1be406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 33/47] fix: read parameters given as series of different
 lengths

---
 src/oemof/solph/processing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index e08390b..5e8bf4d 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -907,7 +907,11 @@ def __separate_attrs(
 
         com_data = {
             "scalars": pd.Series(com_data["scalars"]),
-            "sequences": pd.DataFrame(com_data["sequences"]),
+            # Sequences can have different lengths (e.g. one value per
+            # time point, time step or period).
+            "sequences": pd.DataFrame(
+                {k: pd.Series(v) for k, v in com_data["sequences"].items()}
+            ),
         }
         return com_data
 
-- 
2.43.0


From 3105eecab0ee29e09261cdd3433b32c7d805eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 34/47] fix: read parameters of components with flows as
 attributes

---
 src/oemof/solph/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 5e8bf4d..2d31bba 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -917,7 +917,9 @@ def __separate_attrs(
 
     def move_undetected_scalars(com):
         for ckey, value in list(com["sequences"].items()):
-            if isinstance(value, (str, numbers.Number)):
+            if isinstance(value, (str, numbers.Number)) or not isinstance(
+                value, (abc.Sized, _FakeSequence)
+            ):
                 com["scalars"][ckey] = value
                 del com["sequences"][ckey]
             elif isinstance(value, _FakeSequence):
-- 
2.43.0


From 142bdc1f9f7ea4f5d5f1dfd7a69b5fd6c5b676da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 35/47] fix: meta results of models with an objective value of
 zero

---
 src/oemof/solph/processing.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 2d31bba..ac7b185 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -797,15 +797,16 @@ def meta_results(om, undefined=False):
                     meta_res[k1][k2] = msg.format(
                         type(om.es.results[k1][0][k2])
                     )
-    meta_res["problem"]["MIPGap"] = abs(
-        meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-    ) / (
-        abs(
-            meta_res["problem"]["Upper bound"]
-            + meta_res["problem"]["Lower bound"]
+    upper_bound = meta_res["problem"]["Upper bound"]
+    lower_bound = meta_res["problem"]["Lower bound"]
+    if upper_bound == lower_bound:
+        meta_res["problem"]["MIPGap"] = 0
+    elif upper_bound == -lower_bound:
+        meta_res["problem"]["MIPGap"] = float("inf")
+    else:
+        meta_res["problem"]["MIPGap"] = abs(upper_bound - lower_bound) / (
+            abs(upper_bound + lower_bound) / 2
         )
-        / 2
-    )
     return meta_res
 
 
-- 
2.43.0


From 67d1d7f2a474241228f8a4fc67973044771ef134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 36/47] fix: require nominal_capacity if any limit of a flow is
 set

---
 src/oemof/solph/flows/_flow.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index a293666..5e4f280 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -326,11 +326,15 @@ class Flow(Edge):
         }
         if self.investment is None and self.nominal_capacity is None:
             for attr in need_nominal_capacity:
-                if isinstance(getattr(self, attr), Iterable):
-                    the_attr = getattr(self, attr)[0]
+                the_attr = getattr(self, attr)
+                if isinstance(the_attr, np.ndarray):
+                    values = the_attr
+                elif isinstance(the_attr, Iterable):
+                    values = [the_attr[0]]
                 else:
-                    the_attr = getattr(self, attr)
-                if the_attr != need_nominal_capacity_defaults[attr]:
+                    values = [the_attr]
+                default = need_nominal_capacity_defaults[attr]
+                if any(value != default for value in values):
                     raise AttributeError(
                         f"If {attr} is set in a flow, "
                         "nominal_capacity must be set as well."
-- 
2.43.0


From 576c6055f4c114cafd9075e303111ad5d5af47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 37/47] fix: check all entries of maximum to be finite

---
 src/oemof/solph/flows/_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index 5e4f280..a6a0e75 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -341,7 +341,7 @@ class Flow(Edge):
                     )
 
         if self.nominal_capacity is not None and not math.isfinite(
-            self.maximum[0]
+            self.maximum.max()
         ):
             raise ValueError(infinite_error_msg.format("maximum"))
 
-- 
2.43.0


From 5aa26ad372832b27115f15bb912cdf74e61b9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 38/47] fix: bounds of piecewise linear converters with falling
 conversion functions

---
 .../experimental/_piecewise_linear_converter.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index fad3b91..ac492e7 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -168,12 +168,12 @@ class PiecewiseLinearConverterBlock(ScalarBlock):
         lower_bound_in = {n: min(n.in_breakpoints) for n in group}
         upper_bound_in = {n: max(n.in_breakpoints) for n in group}
         lower_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in lower_bound_in.items()
+            n: min(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
         upper_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in upper_bound_in.items()
+            n: max(n.conversion_function(x) for x in n.in_breakpoints)
+            for n in group
         }
 
         def get_inflow_bounds(model, n, t):
-- 
2.43.0


From 70556869970b42563cc4371c4be82dd0910e577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 39/47] fix: check investment options of all periods

---
 src/oemof/solph/_options.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index aebd550..e265813 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -151,7 +151,7 @@ class Investment:
 
     def _check_invest_attributes_maximum(self):
         """Throw an error if maximum is infinite and nonconvex is True"""
-        if (self.maximum[0] == float("+inf")) and (self.nonconvex is True):
+        if (self.maximum.max() == float("+inf")) and (self.nonconvex is True):
             e2 = (
                 "Please provide a maximum investment value in case of"
                 " nonconvex investment (nonconvex=True), which is in the"
@@ -164,7 +164,9 @@ class Investment:
 
     def _check_invest_attributes_offset(self):
         """Throw an error if offset is given without nonconvex=True"""
-        if (self.offset[0] != 0) and (self.nonconvex is False):
+        if (
+            self.offset.min() != 0 or self.offset.max() != 0
+        ) and self.nonconvex is False:
             e3 = (
                 "If `nonconvex` is `False`, the `offset` parameter will be"
                 " ignored."
-- 
2.43.0


From fd2133a795bdc25c34e066a6bc6caeeecd0404b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 40/47] fix: allow to reset timeincrement of a model by a
 series

---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index b394cb1..bfc36fd 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -150,7 +150,7 @@ class Model(po.ConcreteModel):
 
         self.es = energysystem
 
-        if kwargs.get("timeincrement"):
+        if kwargs.get("timeincrement") is not None:
             msg = "Resetting timeincrement from EnergySystem in Model."
             warnings.warn(msg, debugging.SuspiciousUsageWarning)
 
-- 
2.43.0


From f782d56cac6173c5f870276b6682d66f8c680dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 41/47] fix: offset of the cavern's energy flows of a
 GenericCAES only when operating

---
 src/oemof/solph/components/experimental/_generic_caes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_generic_caes.py b/src/oemof/solph/components/experimental/_generic_caes.py
index 384ca90..6693b4a 100644
--- a/src/oemof/solph/components/experimental/_generic_caes.py
+++ b/src/oemof/solph/components/experimental/_generic_caes.py
@@ -645,7 +645,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_in[n, t]
                 == n.params["cav_e_in_m"] * self.cmp_p[n, t]
-                + n.params["cav_e_in_b"]
+                + n.params["cav_e_in_b"] * self.cmp_st[n, t]
             )
 
         self.cav_e_in_constr = Constraint(
@@ -657,7 +657,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_out[n, t]
                 == n.params["cav_e_out_m"] * self.exp_p[n, t]
-                + n.params["cav_e_out_b"]
+                + n.params["cav_e_out_b"] * self.exp_st[n, t]
             )
 
         self.cav_e_out_constr = Constraint(
-- 
2.43.0


From 5b31bf550e45a9f3d3618551cd74015ae5a995eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 42/47] fix: use limits of the storage level of the typical
 period with aggregated time series

---
 src/oemof/solph/components/_generic_storage.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 1a9ff3c..b5f727d 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -664,9 +664,9 @@ class GenericStorageBlock(ScalarBlock):
             # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
-                    lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
+                    t = m.get_timestep_from_tsam_timestep(p, k, g)
+                    lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -695,8 +695,8 @@ class GenericStorageBlock(ScalarBlock):
         def _storage_inter_maximum_level_rule(block):
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
+                    t = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -2190,8 +2190,8 @@ class GenericInvestmentStorageBlock(ScalarBlock):
             def _storage_inter_maximum_level_rule(block):
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2223,9 +2223,9 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
-                        lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
+                        lhs = self.total[n, p] * n.min_storage_level[t]
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
-- 
2.43.0


From 27c65ac8a51fe861e611df5e4d8d3f053e7bedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 43/47] fix: full load time limits of investment flows with
 on/off status

---
 .../flows/_invest_non_convex_flow_block.py    | 71 +++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index d8a75ab..e2cab4b 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -70,6 +70,12 @@ class InvestNonConvexFlowBlock(ScalarBlock):
             :class:`.options.NonConvex` and the attribute `invest`
             of type :class:`.options.Invest`.
 
+        FULL_LOAD_TIME_MAX_INVEST_NON_CONVEX_FLOWS
+            A subset of the above with an upper limit of the full load time.
+
+        FULL_LOAD_TIME_MIN_INVEST_NON_CONVEX_FLOWS
+            A subset of the above with a lower limit of the full load time.
+
         Also creates :py:func:`sets_for_non_convex_flows`.
         """
         self.INVEST_NON_CONVEX_FLOWS = Set(
@@ -92,6 +98,22 @@ class InvestNonConvexFlowBlock(ScalarBlock):
             ]
         )
 
+        self.FULL_LOAD_TIME_MAX_INVEST_NON_CONVEX_FLOWS = Set(
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].full_load_time_max is not None
+            ]
+        )
+
+        self.FULL_LOAD_TIME_MIN_INVEST_NON_CONVEX_FLOWS = Set(
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].full_load_time_min is not None
+            ]
+        )
+
         _shared.sets_for_non_convex_flows(self, group)
 
     def _create_variables(self):
@@ -177,6 +199,8 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         r"""
         .. automethod:: _minimum_invest_constraint
         .. automethod:: _maximum_invest_constraint
+        .. automethod:: _full_load_time_max_constraint
+        .. automethod:: _full_load_time_min_constraint
         .. automethod:: _linearised_investment_constraints
 
         Also creates
@@ -192,8 +216,55 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.min = _shared.minimum_flow_constraint(self)
         self.max = _shared.maximum_flow_constraint(self)
 
+        self.full_load_time_max = self._full_load_time_max_constraint()
+        self.full_load_time_min = self._full_load_time_min_constraint()
+
         self._linearised_investment_constraints()
 
+    def _full_load_time_max_constraint(self):
+        r"""
+        .. math::
+            \sum_t P(t) \cdot \tau \leq F_{max}
+            \cdot (P_{invest} + P_{exist})
+        """
+        m = self.parent_block()
+
+        def _full_load_time_max_rule(_, i, o):
+            return sum(
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
+            ) <= m.flows[i, o].full_load_time_max * sum(
+                self.invest[i, o, p] + m.flows[i, o].investment.existing
+                for p in m.PERIODS
+            )
+
+        return Constraint(
+            self.FULL_LOAD_TIME_MAX_INVEST_NON_CONVEX_FLOWS,
+            rule=_full_load_time_max_rule,
+        )
+
+    def _full_load_time_min_constraint(self):
+        r"""
+        .. math::
+            \sum_t P(t) \cdot \tau \geq F_{min}
+            \cdot (P_{invest} + P_{exist})
+        """
+        m = self.parent_block()
+
+        def _full_load_time_min_rule(_, i, o):
+            return sum(
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
+            ) >= m.flows[i, o].full_load_time_min * sum(
+                self.invest[i, o, p] + m.flows[i, o].investment.existing
+                for p in m.PERIODS
+            )
+
+        return Constraint(
+            self.FULL_LOAD_TIME_MIN_INVEST_NON_CONVEX_FLOWS,
+            rule=_full_load_time_min_rule,
+        )
+
     def _linearised_investment_constraints(self):
         r"""
         The resulting constraint is equivalent to
-- 
2.43.0


From 0e60dcc58bd68df8e5958451913b57ce9e54e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:06 +0000
Subject: [PATCH 44/47] fix: scalars of results with two time steps when
 removing the last time point

---
 src/oemof/solph/processing.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index ac7b185..5f0ef4c 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -140,7 +140,7 @@ def create_dataframe(om):
     return df
 
 
-def divide_scalars_sequences(df_dict, k):
+def divide_scalars_sequences(df_dict, k, last_row_complete=False):
     """Split results into scalars and sequences results
 
     Parameters
@@ -149,9 +149,14 @@ def divide_scalars_sequences(df_dict, k):
         dict of pd.DataFrames, keyed by oemof tuples
     k: tuple
         oemof tuple for results processing
+    last_row_complete: bool
+        False, if the last row does not need to hold values of sequences
     """
     try:
-        condition = df_dict[k][:-1].isnull().any()
+        if last_row_complete:
+            condition = df_dict[k].isnull().any()
+        else:
+            condition = df_dict[k][:-1].isnull().any()
         scalars = df_dict[k].loc[:, condition].dropna().iloc[0]
         sequences = df_dict[k].loc[:, ~condition]
         return {"scalars": scalars, "sequences": sequences}
@@ -375,7 +380,9 @@ def _extract_standard_model_result(
                 columns="variable_name", values="value"
             )
             set_result_index(df_dict, k, result_index[:-1])
-            result[k] = divide_scalars_sequences(df_dict, k)
+            result[k] = divide_scalars_sequences(
+                df_dict, k, last_row_complete=True
+            )
     else:
         for k in df_dict:
             df_dict[k].set_index("timestep", inplace=True)
-- 
2.43.0


From 2b5ef5e7145013f81d8496f6a864df258bb51426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:44 +0000
Subject: [PATCH 45/47] fix: duals of buses with variables of their own

processing.results failed (length mismatch) if the final time point was kept
and a variable belonged to a bus.
---
 src/oemof/solph/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 5f0ef4c..aaedac0 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -339,7 +339,8 @@ def results(model, remove_last_time_point=False):
                     scalars_col: pd.Series(dtype=float),
                 }
             else:
-                result[(bus, None)]["sequences"]["duals"] = duals
+                # (there is no dual value for the final time point)
+                result[(bus, None)]["sequences"]["duals"] = df["duals"]
 
     return result
 
-- 
2.43.0


From b5a2c8ed7f5b04c0e108848fda20cc59d8c6b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 46/47] fix: fixed profile of investment flows with on/off
 status

---
 .../flows/_invest_non_convex_flow_block.py    | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index e2cab4b..12d8f73 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -76,6 +76,9 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         FULL_LOAD_TIME_MIN_INVEST_NON_CONVEX_FLOWS
             A subset of the above with a lower limit of the full load time.
 
+        FIXED_INVEST_NON_CONVEX_FLOWS
+            A subset of the above with a fixed (normed) profile.
+
         Also creates :py:func:`sets_for_non_convex_flows`.
         """
         self.INVEST_NON_CONVEX_FLOWS = Set(
@@ -114,6 +117,10 @@ class InvestNonConvexFlowBlock(ScalarBlock):
             ]
         )
 
+        self.FIXED_INVEST_NON_CONVEX_FLOWS = Set(
+            initialize=[(g[0], g[1]) for g in group if g[2].fix is not None]
+        )
+
         _shared.sets_for_non_convex_flows(self, group)
 
     def _create_variables(self):
@@ -201,6 +208,7 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         .. automethod:: _maximum_invest_constraint
         .. automethod:: _full_load_time_max_constraint
         .. automethod:: _full_load_time_min_constraint
+        .. automethod:: _fixed_flow_constraint
         .. automethod:: _linearised_investment_constraints
 
         Also creates
@@ -219,6 +227,8 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.full_load_time_max = self._full_load_time_max_constraint()
         self.full_load_time_min = self._full_load_time_min_constraint()
 
+        self.fixed = self._fixed_flow_constraint()
+
         self._linearised_investment_constraints()
 
     def _full_load_time_max_constraint(self):
@@ -265,6 +275,24 @@ class InvestNonConvexFlowBlock(ScalarBlock):
             rule=_full_load_time_min_rule,
         )
 
+    def _fixed_flow_constraint(self):
+        r"""
+        .. math::
+            P(t) = y_{fix}(t) \cdot (P_{invest} + P_{exist})
+        """
+        m = self.parent_block()
+
+        def _fixed_flow_rule(_, i, o, p, t):
+            return m.flow[i, o, t] == m.flows[i, o].fix[t] * (
+                self.invest[i, o, p] + m.flows[i, o].investment.existing
+            )
+
+        return Constraint(
+            self.FIXED_INVEST_NON_CONVEX_FLOWS,
+            m.TIMEINDEX,
+            rule=_fixed_flow_rule,
+        )
+
     def _linearised_investment_constraints(self):
         r"""
         The resulting constraint is equivalent to
-- 
2.43.0


From 2f07ae2419ab107b9ef48b1f4593d94bff2eda01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:43 +0000
Subject: [PATCH 47/47] fix: minimum up and down times longer than the time
 horizon

---
 src/oemof/solph/flows/_invest_non_convex_flow_block.py | 6 +++++-
 src/oemof/solph/flows/_non_convex_flow_block.py        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 12d8f73..319373a 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -156,7 +156,11 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         for o, i in self.INVEST_NON_CONVEX_FLOWS:
             if m.flows[o, i].nonconvex.initial_status is not None:
                 for t in range(
-                    0, m.flows[o, i].nonconvex.first_flexible_timestep
+                    0,
+                    min(
+                        m.flows[o, i].nonconvex.first_flexible_timestep,
+                        len(m.TIMESTEPS),
+                    ),
                 ):
                     self.status[o, i, t] = m.flows[
                         o, i
diff --git a/src/oemof/solph/flows/_non_convex_flow_block.py b/src/oemof/solph/flows/_non_convex_flow_block.py
index ca63b5b..a809aa9 100644
--- a/src/oemof/solph/flows/_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_non_convex_flow_block.py
@@ -92,7 +92,11 @@ class NonConvexFlowBlock(ScalarBlock):
         for o, i in self.FIXED_CAPACITY_NONCONVEX_FLOWS:
             if m.flows[o, i].nonconvex.initial_status is not None:
                 for t in range(
-                    0, m.flows[o, i].nonconvex.first_flexible_timestep
+                    0,
+                    min(
+                        m.flows[o, i].nonconvex.first_flexible_timestep,
+                        len(m.TIMESTEPS),
+                    ),
                 ):
                     self.status[o, i, t] = m.flows[
                         o, i
-- 
2.43.0

