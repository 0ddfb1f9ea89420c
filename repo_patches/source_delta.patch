From 961e5907dfb6c789dade9a5a9abe2d7630fe8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 01/18] fix: weight network outlets by the mass flow rate of
 their own circuit

The mixing coefficients assumed that the k-th outlet of the network belongs to
the k-th circuit, which is not the case when outlets are not sorted in the
same order as inlets (e.g. bore_connectivity=[-1, -1, 1, 0]).
---
 pygfunction/networks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8b5eb0b..687e019 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1108,8 +1108,9 @@ class Network(object):
         """
         if not self._check_mixing_coefficients(m_flow_network):
             self._mix_out = np.zeros((1, self.nBoreholes))
-            self._mix_out[0, self.iOutlets] = \
-                np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
+            # The outlets are not necessarily sorted by circuit index
+            m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
+            self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
             self._mixing_m_flow = m_flow_network
         return self._mix_out
 
-- 
2.43.0


From 848f16a481a8bee8edcf5ca604c69a19fefb3415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 02/18] fix: compare circuit mass flow rates in the stored
 coefficients of networks

The total mass flow rate was compared to (broadcasted) stored mass flow rates
of the circuits, so that coefficients of another mass flow rate could be
returned. The inlet mass flow rates and flow direction used for mixing were
also left at those of a previous call when stored coefficients were used.
---
 pygfunction/networks.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 687e019..b1434a5 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1183,7 +1183,7 @@ class Network(object):
             self, m_flow_network, cp_f, nSegments, segment_ratios,
             coefficients, method_id):
         self._stored_coefficients[method_id] = coefficients
-        self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
+        self._stored_m_flow_cp[method_id] = self._m_flow_in * self._cp_in
         self._stored_nSegments[method_id] = nSegments
         self._stored_segment_ratios[method_id] = segment_ratios
 
@@ -1206,6 +1206,11 @@ class Network(object):
     def _check_coefficients(
             self, m_flow_network, cp_f, nSegments, segment_ratios, method_id,
             tol=1e-6):
+        # Update input variables, including the mass flow rates and heat
+        # capacities in each fluid circuit (m_flow_network may be supplied as
+        # the total mass flow rate or as the mass flow rates in each circuit)
+        self._format_inputs(m_flow_network, cp_f, nSegments, segment_ratios)
+        m_flow_cp = self._m_flow_in * self._cp_in
         stored_m_flow_cp = self._stored_m_flow_cp[method_id]
         stored_nSegments = self._stored_nSegments[method_id]
         stored_segment_ratios = self._stored_segment_ratios[method_id]
@@ -1216,7 +1221,7 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+        if (np.all(np.abs(m_flow_cp - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments and check_ratios):
             check = True
         else:
-- 
2.43.0


From 3d90b9ef2191d8f611a8366a508348135ec2cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 03/18] fix: store copies of the inputs of stored coefficients
 in networks

Lists and arrays supplied by the caller were stored by reference, so that
modifying them in place and calling the same method again returned the
coefficients of the original values.
---
 pygfunction/networks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index b1434a5..259e5b3 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import deepcopy
 from typing import Union, List
 
 import numpy as np
@@ -1111,7 +1112,7 @@ class Network(object):
             # The outlets are not necessarily sorted by circuit index
             m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
             self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _initialize_coefficients_connectivity(self):
@@ -1184,8 +1185,9 @@ class Network(object):
             coefficients, method_id):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = self._m_flow_in * self._cp_in
-        self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        # Copies are stored since the caller may modify lists and arrays
+        self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
         return
 
@@ -1590,7 +1592,7 @@ class _EquivalentNetwork(Network):
             wBoreholes = self.wBoreholes.flatten()
             self._mix_out[0, self.iOutlets] = \
                 m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _format_inputs(self, m_flow_network, cp_f, nSegments, segment_ratios):
-- 
2.43.0


From 574802888f8a761f21399a00ce55126358c51d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 04/18] fix: update all model variables of pipes with the flow
 direction

The heat extraction rate methods updated the inlet and outlet indices and the
flow direction without updating the inputs of the model variables, so that a
following call with the mass flow rate of the stored model variables was done
with the flow direction of another mass flow rate.
---
 pygfunction/pipes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c5ceb5e..c26b278 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -571,8 +571,8 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios, method_id):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
-            # Update input variables
-            self._format_inputs(
+            # Check if model variables need to be updated
+            self._check_model_variables(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             m_flow_pipe = self._m_flow_pipe
             cp_pipe = self._cp_pipe
@@ -638,8 +638,8 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios, method_id):
             a_in, a_b = self._get_stored_coefficients(method_id)
         else:
-            # Update input variables
-            self._format_inputs(
+            # Check if model variables need to be updated
+            self._check_model_variables(
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
 
             # Coefficient matrices for outlet temperatures:
-- 
2.43.0


From 95915588b7f48c9356d195808a8351759dc0c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 05/18] fix: store copies of the inputs of stored coefficients
 and resistances in pipes

Segment ratios and inputs of thermal_resistances were stored by reference, so
that modifying them in place and repeating the call returned the results of
the original values.
---
 pygfunction/pipes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c26b278..a9ecf36 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import deepcopy
 import warnings
 from typing import Union
 
@@ -824,7 +825,8 @@ class _BasePipe(object):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
         self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        # A copy is stored since the caller may modify the array
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
     def _get_stored_coefficients(self, method_id):
         coefficients = self._stored_coefficients[method_id]
@@ -851,7 +853,7 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             self._nSegments_model_variables = nSegments
-            self._segment_ratios_model_variables = segment_ratios
+            self._segment_ratios_model_variables = deepcopy(segment_ratios)
             check = False
 
         return check
@@ -2961,12 +2963,13 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
     Rd = 1.0/K
 
     # Save outputs into dictionary
-    _thermal_resistances_dict['pos'] = pos
-    _thermal_resistances_dict['r_out'] = r_out
+    # (copies are stored since the caller may modify lists and arrays)
+    _thermal_resistances_dict['pos'] = deepcopy(pos)
+    _thermal_resistances_dict['r_out'] = deepcopy(r_out)
     _thermal_resistances_dict['r_b'] = r_b
     _thermal_resistances_dict['k_s'] = k_s
     _thermal_resistances_dict['k_g'] = k_g
-    _thermal_resistances_dict['R_fp'] = R_fp
+    _thermal_resistances_dict['R_fp'] = deepcopy(R_fp)
     _thermal_resistances_dict['J'] = J
     _thermal_resistances_dict['R'] = R
     _thermal_resistances_dict['Rd'] = Rd
-- 
2.43.0


From d6ab3c5ceffe6f7118d211abaaa9c229d9a07c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 06/18] fix: use the relative tolerance to compare inputs of
 thermal_resistances

---
 pygfunction/pipes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index a9ecf36..e8e3749 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2828,11 +2828,11 @@ def _compare_thermal_resistances_inputs(
             len(R_fp) == len(_thermal_resistances_dict['R_fp'])):
         return False
     # Compare r_out, r_b, k_s, k_g, R_fp and J
-    if not (np.allclose(r_out, _thermal_resistances_dict['r_out'], rtol=tol) and
+    if not (np.allclose(r_out, _thermal_resistances_dict['r_out'], rtol=tol, atol=0.) and
         np.abs(r_b - _thermal_resistances_dict['r_b']) / r_b < tol and
         np.abs(k_s - _thermal_resistances_dict['k_s']) / k_s < tol and
         np.abs(k_g - _thermal_resistances_dict['k_g']) / k_g < tol and
-        np.allclose(R_fp, _thermal_resistances_dict['R_fp']) and
+        np.allclose(R_fp, _thermal_resistances_dict['R_fp'], rtol=tol, atol=0.) and
         J == _thermal_resistances_dict['J']):
         return False
     # Compare pipe positions
-- 
2.43.0


From 1c07f896b67efcd2554d1b2e9d371ee3236d9c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 07/18] fix: use the absolute value of the mass flow rate if
 flow is not reversible

A negative mass flow rate was used with reversible_flow=False, contrary to the
documentation, and heat extraction rates were of the opposite sign.
---
 pygfunction/pipes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index e8e3749..45a087a 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1625,6 +1625,10 @@ class SingleUTube(_BasePipe):
             equal lengths are considered.
         """
 
+        # If flow is not reversible, the direction of flow is not reversed when
+        # the mass flow rate is negative and the absolute value is used
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         if np.isscalar(m_flow_borehole):
             # Mass flow rate in each fluid circuit
@@ -2195,6 +2199,10 @@ class MultipleUTube(_BasePipe):
         """
 
         nPipes = self.nPipes
+        # If flow is not reversible, the direction of flow is not reversed when
+        # the mass flow rate is negative and the absolute value is used
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         # Mass flow rate in pipes
         if self.config.lower() == 'parallel':
@@ -2475,6 +2483,10 @@ class IndependentMultipleUTube(MultipleUTube):
         """
         Format mass flow rate and heat capacity inputs.
         """
+        # If flow is not reversible, the direction of flow is not reversed when
+        # the mass flow rate is negative and the absolute value is used
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
-- 
2.43.0


From 27f063fd09c7c4d3fe9bfe526478ff481374c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 08/18] fix: verify all radii and resistances of coaxial
 boreholes

---
 pygfunction/pipes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 45a087a..7efd7c9 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2741,18 +2741,18 @@ class Coaxial(SingleUTube):
             raise ValueError(
                 f'The grout thermal conductivity must be greater than zero. '
                 f'A value of {self.k_g} was provided.')
-        if not np.all(self.R_ff) >= 0.:
+        if not np.all(np.greater_equal(self.R_ff, 0.)):
             raise ValueError(
                 f'The fluid to fluid thermal resistance must be'
                 f'greater or equal to zero. '
                 f'A value of {self.R_ff} was provided.')
-        if not np.all(self.R_fp) > 0.:
+        if not np.all(np.greater(self.R_fp, 0.)):
             raise ValueError(
                 f'The fluid to outer pipe wall thermal resistance must be'
                 f'greater than zero. A value of {self.R_fp} was provided.')
 
         # Verify that the pipe radius is greater than zero.
-        if not np.all(self.r_in) > 0.:
+        if not np.all(np.greater(self.r_in, 0.)):
             raise ValueError(
                 f'The pipe inner radius must be greater than zero. '
                 f'A value of {self.r_in} was provided.')
@@ -2781,7 +2781,7 @@ class Coaxial(SingleUTube):
         for i in range(len(self.pos)):
             r_pipe = np.sqrt(self.pos[i][0]**2 + self.pos[i][1]**2)
             radii = r_pipe + self.r_out
-            if not np.any(np.greater_equal(self.b.r_b, radii)):
+            if not np.all(np.greater_equal(self.b.r_b, radii)):
                 raise ValueError(
                     f'Pipes must be entirely contained within the borehole. '
                     f'Pipe {i} is partly or entirely outside the '
-- 
2.43.0


From e49629f45c4289d90e9ec0ba68200fc0dad12131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:32 +0000
Subject: [PATCH 09/18] fix: linearize each g-function of fields with variable
 mass flow rate

The g-functions for times below the linearization threshold were multiplied
by the time along the wrong dimension when more than one mass flow rate is
supplied.
---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e73eb2f..250bb3c 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -444,7 +444,7 @@ class _BaseSolver:
 
             # Linearize g-function for times under threshold
             if p_long > 0:
-                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1] * self.time[:p_long] / time_threshold
+                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
                 Q_b[:,:,:p_long] = 1 + (Q_b[:,:,p_long-1:p_long] - 1) * self.time[:p_long] / time_threshold
                 T_b[:,:,:p_long] = T_b[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
             if self.nMassFlow == 0:
-- 
2.43.0


From c9ca3fd995eb317cfb752c345601c0dd35877c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:27 +0000
Subject: [PATCH 10/18] fix: do not evaluate single inclined boreholes as
 vertical boreholes

The is_vertical method was not called.
---
 pygfunction/solvers/similarities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 887d144..afae56a 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -921,7 +921,7 @@ class Similarities(_BaseSolver):
 
         else:
             # Outputs for a single borehole
-            if boreholes[0].is_vertical:
+            if boreholes[0].is_vertical():
                 borehole_to_self_vertical = [[0]]
                 borehole_to_self_inclined = []
             else:
-- 
2.43.0


From 9b746db16eb32b1349d977be377a4a43617d360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:27 +0000
Subject: [PATCH 11/18] fix: match the order of vertical boreholes of different
 depths in similar pairs

Pairs of boreholes of equal lengths were considered similar to pairs of
boreholes with interchanged buried depths without reordering their segments.
---
 pygfunction/solvers/similarities.py | 34 ++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index afae56a..b8eb29f 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -669,6 +669,38 @@ class Similarities(_BaseSolver):
             similarity = False
         return similarity
 
+    def _compare_borehole_pairs_vertical(self, pair1, pair2):
+        """
+        Compare two pairs of vertical boreholes and return True if all pairs of
+        segments along the two pairs of boreholes have the same FLS solution.
+
+        The FLS solution for two segments of equal lengths is unchanged if
+        their buried depths are interchanged. This is not the case of pairs of
+        boreholes, since the order of their segments would also change.
+
+        Parameters
+        ----------
+        pair1 : Tuple of Borehole objects
+            First pair of boreholes.
+        pair2 : Tuple of Borehole objects
+            Second pair of boreholes.
+
+        Returns
+        -------
+        similarity : bool
+            True if the two pairs have the same FLS solution.
+
+        """
+        # Equality of buried depths
+        cond_D = (
+            abs(pair1[0].D - pair2[0].D)/(abs(pair1[0].D) + 1e-30) < self.tol
+            and abs(pair1[1].D - pair2[1].D)/(abs(pair1[1].D) + 1e-30) < self.tol)
+        if cond_D and self._compare_realandimage_pairs_vertical(pair1, pair2):
+            similarity = True
+        else:
+            similarity = False
+        return similarity
+
     def _compare_real_pairs_inclined(self, pair1, pair2):
         """
         Compare two pairs of inclined boreholes or segments and return True if
@@ -882,7 +914,7 @@ class Similarities(_BaseSolver):
                     # Compare pairs of boreholes to known unique pairs
                     if borehole_i.is_vertical() and borehole_j.is_vertical():
                         borehole_to_borehole = borehole_to_borehole_vertical
-                        compare_pairs = self._compare_realandimage_pairs_vertical
+                        compare_pairs = self._compare_borehole_pairs_vertical
                     else:
                         borehole_to_borehole = borehole_to_borehole_inclined
                         compare_pairs = self._compare_realandimage_pairs_inclined
-- 
2.43.0


From 652b42ccc998919b1a5084bf639c7ee6e27e9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:27 +0000
Subject: [PATCH 12/18] fix: compare the relative orientation of inclined
 boreholes in similar pairs

---
 pygfunction/solvers/similarities.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index b8eb29f..6779500 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -846,7 +846,18 @@ class Similarities(_BaseSolver):
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
             and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
-        if cond_H and cond_D and cond_dis and cond_beta and cond_theta:
+        # Equality of relative orientations between boreholes of each pair
+        sin_b1_sin_b2_cos_dt12_1 = (
+            np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt)
+            * np.cos(pair1[0].orientation - pair1[1].orientation))
+        sin_b1_sin_b2_cos_dt12_2 = (
+            np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt)
+            * np.cos(pair2[0].orientation - pair2[1].orientation))
+        cond_theta_12 = (
+            abs(sin_b1_sin_b2_cos_dt12_1 - sin_b1_sin_b2_cos_dt12_2)
+            / (abs(sin_b1_sin_b2_cos_dt12_1) + 1e-30) < self.tol)
+        if (cond_H and cond_D and cond_dis and cond_beta and cond_theta
+            and cond_theta_12):
             similarity = True
         else:
             similarity = False
-- 
2.43.0


From 7d3110171c9cc64a632088fdf5a03228e86ba75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:02 +0000
Subject: [PATCH 13/18] fix: find_duplicates with numpy >= 2.5 (indices of
 duplicates as a flat array)

---
 pygfunction/boreholes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 330ed4b..c122424 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -645,7 +645,7 @@ def find_duplicates(boreField, disp=False):
     # Find distance between each pair of boreholes
     distances = pdist(coordinates, 'euclidean')
     # Find duplicate boreholes
-    duplicate_index = np.argwhere(distances < r_b)
+    duplicate_index = np.flatnonzero(distances < r_b)
     i = n - 2 - np.floor(
         np.sqrt(-8 * duplicate_index + 4 * n * (n - 1) - 7) / 2 - 0.5)
     j = duplicate_index + i + 1 - n * (n - 1) / 2 + (n - i) * ((n - i) - 1) / 2
-- 
2.43.0


From 2aa8bca07f754f36e17634bc7c288d19d33ea322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 14/18] fix: full inclined finite line source is the sum of its
 real and image parts

---
 pygfunction/heat_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 55f3cf9..2af6fc3 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -1229,7 +1229,7 @@ def _finite_line_source_inclined_integrand(
             ((H1 / s * (
                 np.exp(-(rr + dzRea**2) * s**2 + s**2 * (u**2 * H1**2 * (kRea_0**2 - 1) + 2 * u * H1 * (kRea_0 * kRea_2 - kRea_1) + kRea_2**2)) \
                     * (erf((u *  H1 * kRea_0 + kRea_2) * s) - erf((u * H1 * kRea_0 + kRea_2 - H2) * s))
-                - np.exp(-(rr + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
+                - np.exp(-(dx**2 + dy**2 + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
                     * (erf((u *  H1 * kImg_0 + kImg_2) * s) - erf((u * H1 * kImg_0 + kImg_2 - H2) * s)))).T @ w).T
     elif reaSource:
         # Real FLS solution
-- 
2.43.0


From a42515ad999e2223a7b5201533311682a8f4c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:06 +0000
Subject: [PATCH 15/18] fix: store copies of the mass flow rates and heat
 capacities in pipes

---
 pygfunction/pipes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 7efd7c9..c5dadb9 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1636,7 +1636,7 @@ class SingleUTube(_BasePipe):
         else:
             # Mass flow rate in each fluid circuit
             m_flow_in = m_flow_borehole
-        self._m_flow_in = m_flow_in
+        self._m_flow_in = np.copy(m_flow_in)
         # Mass flow rate in pipes
         m_flow_pipe = np.array([m_flow_borehole, -m_flow_borehole]).flatten()
         self._m_flow_pipe = m_flow_pipe
@@ -1656,7 +1656,7 @@ class SingleUTube(_BasePipe):
         else:
             # Heat capacity in each fluid circuit
             cp_in = cp_f
-        self._cp_in = cp_in
+        self._cp_in = np.copy(cp_in)
         # Heat capacity in pipes
         cp_pipe = np.tile(cp_in, 2*self.nPipes)
         self._cp_pipe = cp_pipe
@@ -2217,14 +2217,14 @@ class MultipleUTube(_BasePipe):
             (m_flow_pipe, -m_flow_pipe))
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
-        self._m_flow_in = m_flow_in
+        self._m_flow_in = np.copy(m_flow_in)
         # Flow direction
         self._is_reversed = m_flow_borehole < 0. and self.reversible_flow
 
         # Format heat capacity inputs
         # Heat capacity in each fluid circuit
         cp_in = np.atleast_1d(cp_f)
-        self._cp_in = cp_in
+        self._cp_in = np.copy(cp_in)
         # Heat capacity in pipes
         cp_pipe = np.tile(cp_in, 2*self.nPipes)
         self._cp_pipe = cp_pipe
@@ -2493,7 +2493,7 @@ class IndependentMultipleUTube(MultipleUTube):
         if not len(m_flow_in) == self.nInlets:
             raise ValueError(
                 'Incorrect length of mass flow vector.')
-        self._m_flow_in = m_flow_in
+        self._m_flow_in = np.copy(m_flow_in)
         # Mass flow rate in pipes
         self._m_flow_pipe = np.concatenate((m_flow_in, -m_flow_in))
         # Flow direction
@@ -2509,7 +2509,7 @@ class IndependentMultipleUTube(MultipleUTube):
         elif not len(cp_in) == self.nInlets:
             raise ValueError(
                 'Incorrect length of heat capacity vector.')
-        self._cp_in = cp_in
+        self._cp_in = np.copy(cp_in)
         # Heat capacity in pipes
         cp_pipe = np.tile(cp_in, 2)
         self._cp_pipe = cp_pipe
-- 
2.43.0


From 9073a8d7bcea94a36796e6328d8fef50012d5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:46 +0000
Subject: [PATCH 16/18] fix: assign clusters of equivalent boreholes to the
 boreholes they were computed for

---
 pygfunction/solvers/equivalent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index f23943c..35a13b0 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -349,8 +349,8 @@ class Equivalent(_BaseSolver):
             data = np.sum(finite_line_source(np.inf, 1., self.boreholes, self.boreholes), axis=1).reshape(-1,1)
             # Split boreholes into groups of same dimensions
             unique_boreholes = self._find_unique_boreholes(self.boreholes)
-            # Initialize empty list of clusters
-            self.clusters = []
+            # Initialize list of clusters (one for each borehole)
+            self.clusters = [0] * self.nBoreholes
             self.nEqBoreholes = 0
             for group in unique_boreholes:
                 if len(group) > 1:
@@ -381,11 +381,11 @@ class Equivalent(_BaseSolver):
                     # Cut the tree to find the borehole groups
                     clusters = cut_tree(
                         clusterization, n_clusters=nClusters)
-                    self.clusters = self.clusters + \
-                        [label + self.nEqBoreholes for label in clusters]
+                    for i, label in zip(group, clusters):
+                        self.clusters[i] = label + self.nEqBoreholes
                 else:
                     nClusters = 1
-                    self.clusters.append(self.nEqBoreholes)
+                    self.clusters[group[0]] = self.nEqBoreholes
                 self.nEqBoreholes += nClusters
         else:
             self.nEqBoreholes = self.nBoreholes
-- 
2.43.0


From 93812a378ebf23a9355072a4bf379454134198c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:39 +0000
Subject: [PATCH 17/18] fix: offset of the response factors of pairs of
 inclined boreholes with similar segments

---
 pygfunction/solvers/similarities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 6779500..b9e1ed9 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -369,7 +369,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -448,7 +448,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From b3552a75e051504a492779e50cbf1d48210ed78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:01 +0000
Subject: [PATCH 18/18] fix: mass flow rates per borehole with the equivalent
 solver

---
 pygfunction/gfunction.py          | 2 +-
 pygfunction/solvers/equivalent.py | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0edad34..d305efd 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1444,7 +1444,7 @@ class gFunction(object):
             elif not (self.m_flow_borehole is None
                       or np.allclose(
                           self.m_flow_borehole,
-                          self.m_flow_borehole[0])):
+                          np.asarray(self.m_flow_borehole)[..., :1])):
                 warnings.warn(
                     "\nSolver 'equivalent' is only valid for equal mass flow "
                     "rates into the boreholes. Calculations will use the "
diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index 35a13b0..81cca7c 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -828,15 +828,12 @@ class Equivalent(_BaseSolver):
                 "Solver 'equivalent' is only valid for parallel-connected " \
                 "boreholes."
             assert (self.m_flow_borehole is None
-                    or (self.m_flow_borehole.ndim==1 and np.allclose(self.m_flow_borehole, self.m_flow_borehole[0]))
-                    or (self.m_flow_borehole.ndim==2 and np.all([np.allclose(self.m_flow_borehole[:, i], self.m_flow_borehole[0, i]) for i in range(self.nBoreholes)]))), \
+                    or np.allclose(self.m_flow_borehole, self.m_flow_borehole[:, :1])), \
                 "Mass flow rates into the network must be equal for all " \
                 "boreholes."
             # Use the total network mass flow rate.
-            if (type(self.network.m_flow_network) is np.ndarray and \
-                len(self.network.m_flow_network)==len(self.network.b)):
-                self.network.m_flow_network = \
-                    self.network.m_flow_network[0]*len(self.network.b)
+            if self.m_flow_borehole is not None:
+                self.m_flow = np.sum(self.m_flow_borehole, axis=1)
             # Verify that all boreholes have the same piping configuration
             # This is best done by comparing the matrix of thermal resistances.
             assert np.all(
-- 
2.43.0

