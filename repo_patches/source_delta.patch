From bc4767647cdae252f30fee41b4c973e556da5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 01/39] fix: azimuth exactly on the lower edge belongs to the
 first azimuthal bin

np.digitize(..., right=True) returns 0 for phi == 0, so overall_bin and
mirror_matrix used index -1, i.e. a bin of the neighbouring polar angle
(e.g. the mirror with phi_symmetry = 2*pi and one azimuthal bin).
---
 rayflare/angles.py                       | 2 ++
 rayflare/matrix_formalism/ideal_cases.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rayflare/angles.py b/rayflare/angles.py
index b69d35d..c39016b 100644
--- a/rayflare/angles.py
+++ b/rayflare/angles.py
@@ -196,5 +196,7 @@ def theta_summary_A(A_mat, angle_vector):
 
 def overall_bin(x, phi_intv, angle_vector_0):
     phi_ind = np.digitize(x, phi_intv[x.coords["theta_bin"].data[0]], right=True) - 1
+    # the lower edge (phi = 0) belongs to the first bin
+    phi_ind = np.maximum(phi_ind, 0)
     ov_bin = np.argmin(abs(angle_vector_0 - x.coords["theta_bin"].data[0])) + phi_ind
     return ov_bin
diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index ae9f963..a718e38 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -138,7 +138,7 @@ def mirror_matrix(
         bin_in = np.arange(len(angle_vector_phi))
 
         phi_ind = [
-            np.digitize(phi, phi_intv[binned_theta[i1]], right=True) - 1
+            max(np.digitize(phi, phi_intv[binned_theta[i1]], right=True) - 1, 0)
             for i1, phi in enumerate(phis_out)
         ]
         overall_bin = [
-- 
2.43.0


From c8643d26874d6b65a74bfdd8edcb42f804d383b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 02/39] fix: incidence on a bin edge enters the bin the
 matrices were calculated for

make_v0 binned the incident direction with the bins closed at the lower edge while
all the redistribution matrices close them at the upper edge: phi_in equal to
phi_symmetry ended up at another polar angle or past the last bin, and theta_in on an
edge in a bin not populated with only_incidence_angle.
---
 rayflare/matrix_formalism/multiply_matrices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 8390f2b..a88ed1d 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -99,14 +99,15 @@ def make_v0(
     )
     n_a_in = int(len(angle_vector) / 2)
     v0 = np.zeros((num_wl, n_a_in))
-    th_bin = np.digitize(th_in, theta_intv) - 1
+    # bins are closed at their upper edge, as everywhere else; the lowest edge belongs to the first bin
+    th_bin = max(np.digitize(th_in, theta_intv, right=True) - 1, 0)
     phi_intv = phi_intv[th_bin]
     ov_bin = np.argmin(abs(angle_vector[:, 0] - th_bin))
     if phi_in == "all":
         n_phis = len(phi_intv) - 1
         v0[:, ov_bin : (ov_bin + n_phis)] = 1 / n_phis
     else:
-        phi_ind = np.digitize(phi_in, phi_intv) - 1
+        phi_ind = max(np.digitize(phi_in, phi_intv, right=True) - 1, 0)
         ov_bin = ov_bin + phi_ind
         v0[:, ov_bin] = 1
     return v0
-- 
2.43.0


From 4f723500c673c8d81474790527db3e09c2c087e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 03/39] fix: bins without rays and bulk without absorption no
 longer read uninitialised memory

np.divide(..., where=mask) without out= leaves arbitrary values where the mask is
False: entries of redistribution matrices for unpopulated incidence bins and of bulk
profiles in a transparent bulk were undefined.
---
 rayflare/matrix_formalism/multiply_matrices.py |  4 ++--
 rayflare/ray_tracing/rt.py                     | 14 +++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index a88ed1d..dba5d0d 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -186,7 +186,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     per_bin = v_1 - v_2  # total absorption per bin
     abscos = np.abs(np.cos(thetas))
     denom = 1 - np.exp(-alphas[:, None] * d / abscos[None, :])
-    norm = np.divide(per_bin, denom, where=denom != 0)
+    norm = np.divide(per_bin, denom, where=denom != 0, out=np.zeros_like(per_bin))
 
     result = np.empty((v_1.shape[0], len(depths)))
 
@@ -201,7 +201,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     # but at short wavelengths this causes an issue where the integrated depth profile
     # is not equal to the total absorption. Scale the profile to fix this and make things
     # consistent.
-    scale = np.divide(A, check, where=check != 0)
+    scale = np.divide(A, check, where=check != 0, out=np.zeros_like(check))
 
     corrected = scale[:, None] * result
 
diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index b78cbd1..64c37f4 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -413,12 +413,20 @@ def RT_wl(
                 local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += 1
 
     # normalize
-    out_mat = np.divide(out_mat, n_rays_in_bin, where=n_rays_in_bin != 0)
+    out_mat = np.divide(
+        out_mat, n_rays_in_bin, where=n_rays_in_bin != 0, out=np.zeros_like(out_mat)
+    )
     overall_abs_frac = np.divide(
-        n_rays_in_bin_abs, n_rays_in_bin, where=n_rays_in_bin != 0
+        n_rays_in_bin_abs,
+        n_rays_in_bin,
+        where=n_rays_in_bin != 0,
+        out=np.zeros_like(n_rays_in_bin_abs),
     )
     abs_scale = np.divide(
-        overall_abs_frac, np.sum(A_mat, 0), where=np.sum(A_mat, 0) != 0
+        overall_abs_frac,
+        np.sum(A_mat, 0),
+        where=np.sum(A_mat, 0) != 0,
+        out=np.zeros_like(overall_abs_frac),
     )
 
     intgr = np.divide(
-- 
2.43.0


From 9ff16763e42eab00eb7ff28352a421537134edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 04/39] fix: ray-tracing only the incidence angle with
 phi_in='all'

The string 'all' was used as the azimuth of every ray, which raised an exception;
use the azimuths of all bins at the polar angle of incidence instead.
---
 rayflare/ray_tracing/rt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 64c37f4..947ca02 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -133,8 +133,12 @@ def RT(
             n_angles = n_reps
 
             if options["phi_in"] == "all":
-                # get relevant phis
-                phis_in = np.tile(options["phi_in"], n_reps)
+                # get relevant phis: all the azimuthal bins for this polar angle
+                th_bin = max(np.digitize(th_in, theta_intv, right=True) - 1, 0)
+                phis = angles_in[angles_in[:, 0] == th_bin, 2]
+                thetas_in = np.tile(th_in, n_reps * len(phis))
+                phis_in = np.tile(phis, n_reps)
+                n_angles = len(phis_in)
             else:
                 if options["phi_in"] == 0:
                     phis_in = np.tile(0.0001, n_reps)
-- 
2.43.0


From 33e9e1ec652d06ebf0d5ce7b11950e6eaf15e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:23 +0000
Subject: [PATCH 05/39] fix: interface depth profiles keep one length when
 widths are multiples of the depth spacing

---
 rayflare/ray_tracing/rt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 947ca02..7dfe587 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1128,8 +1128,14 @@ def parallel_inner(
                 n_z_points = 0
                 widths_int = interface_layer_widths[j1]
                 for k1, l_w in enumerate(widths_int):
+                    # rounding of the width must not add a point at the far side of the layer, where
+                    # the next layer starts
                     z_lists[j1].append(
-                        xr.DataArray(np.arange(0, l_w, depth_spacing_int))
+                        xr.DataArray(
+                            np.arange(
+                                0, l_w - 1e-6 * depth_spacing_int, depth_spacing_int
+                            )
+                        )
                     )
                     if k1 + 1 in prof_layer_i:
                         n_z_points += len(z_lists[j1][-1])
-- 
2.43.0


From b56c8101302467f12af03e39e5a6b501203a7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 06/39] fix: absorption per layer of a transparent incoherent
 stack no longer reads uninitialised memory

---
 rayflare/transfer_matrix_method/tmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index c0e8e23..05a2780 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -711,6 +711,7 @@ class tmm_structure:
                     A_per_layer * output["A"],
                     np.sum(A_per_layer, axis=0),
                     where=np.sum(A_per_layer, axis=0) != 0,
+                    out=np.zeros_like(A_per_layer),
                 )
 
         output["A_per_layer"] = output["A_per_layer"].T
-- 
2.43.0


From c521213ac67fd81c2e3a175e0486a037691ea7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 07/39] fix: profile coefficients of incoherent layers start
 from the light reaching the layer, per polarisation

---
 rayflare/transfer_matrix_method/tmm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 05a2780..6986aee 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -461,7 +461,10 @@ class tmm_structure:
                     output["profile"] = data["absor"]
 
                 else:
-                    fraction_reaching = 1 - np.cumsum(A_per_layer, axis=0)
+                    # A_per_layer has no entry for the incidence medium: what is lost before layer 1 is R
+                    fraction_reaching = 1 - np.cumsum(
+                        np.vstack((output["R"], A_per_layer)), axis=0
+                    )
                     fn = tmm.absorp_analytic_fn()
                     fn.a1, fn.a3, fn.A1, fn.A2, fn.A3 = (
                         np.empty((0, num_wl)),
@@ -525,7 +528,7 @@ class tmm_structure:
 
                 else:
                     fraction_reaching_s = 1 - np.cumsum(A_per_layer_s, axis=0)
-                    fraction_reaching_p = 1 - np.cumsum(A_per_layer_s, axis=0)
+                    fraction_reaching_p = 1 - np.cumsum(A_per_layer_p, axis=0)
                     fraction_reaching = 0.5 * (
                         fraction_reaching_s + fraction_reaching_p
                     )
@@ -567,7 +570,7 @@ class tmm_structure:
                     for l in layers:
                         if coherency_list[l] == "c":
                             fn_s = tmm.inc_find_absorp_analytic_fn(l, out_s)
-                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_s)
+                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_p)
                             fn_l = fn_s.add(fn_p).scale(0.5)
                             fn.a1 = np.vstack((fn.a1, fn_l.a1))
                             fn.a3 = np.vstack((fn.a3, fn_l.a3))
-- 
2.43.0


From 6f9d34a4e9402442ccdeddf583590caf2fef845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:46 +0000
Subject: [PATCH 08/39] fix: rear-incidence profiles of planar interfaces are
 evaluated in the layer that contains each depth

---
 rayflare/transfer_matrix_method/tmm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 6986aee..fc404e4 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -184,13 +184,17 @@ def TMM(
                     )
                 )
 
+            dist_in = dist
+
             if front_or_rear != "front":
-                dist = (z_limit - dist)[::-1]
+                # depths below the rear surface. A point on the boundary between two layers belongs to the
+                # layer behind it (as in dist), so it is approached from inside that layer.
+                dist_in = np.maximum((z_limit - dist)[::-1] - 1e-6, 0)
                 prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         else:
             profile = False
-            dist = None
+            dist_in = None
 
         if front_or_rear != "front":
             optlayers = OptiStack(
@@ -269,7 +273,7 @@ def TMM(
                 pass_options["theta_in"] = theta
 
                 res = tmm_struct.calculate(
-                    pass_options, profile=profile, layers=prof_layers, dist=dist
+                    pass_options, profile=profile, layers=prof_layers, dist=dist_in
                 )
 
                 R_loop[:, i3] = np.real(res["R"])
-- 
2.43.0


From adaa3260983c205dfb2849b9e41d37213cd5e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:46 +0000
Subject: [PATCH 09/39] fix: rear incidence on a planar interface reverses
 coherency_list along with the layers

---
 rayflare/transfer_matrix_method/tmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index fc404e4..5e70141 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -203,6 +203,9 @@ def TMM(
             trns = incidence
             inc = transmission
 
+            if coherency_list is not None:
+                coherency_list = coherency_list[::-1]
+
         if options["pol"] == "u":
             pols = ["s", "p"]
 
-- 
2.43.0


From b8ebea10939dbae92ec5a5c33ac2650c1c787108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:56 +0000
Subject: [PATCH 10/39] fix: lookup tables for a chosen set of sides are
 calculated for the side they are labelled with

---
 rayflare/transfer_matrix_method/lookup_table.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index bd629b0..ff3c28f 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -86,7 +86,7 @@ def make_TMM_lookuptable(
         pols = ["s", "p"]
 
         R = xr.DataArray(
-            np.empty((2, 2, len(wavelengths), n_angles)),
+            np.empty((len(sides), 2, len(wavelengths), n_angles)),
             dims=["side", "pol", "wl", "angle"],
             coords={
                 "side": sides,
@@ -97,7 +97,7 @@ def make_TMM_lookuptable(
             name="R",
         )
         T = xr.DataArray(
-            np.empty((2, 2, len(wavelengths), n_angles)),
+            np.empty((len(sides), 2, len(wavelengths), n_angles)),
             dims=["side", "pol", "wl", "angle"],
             coords={
                 "side": sides,
@@ -108,7 +108,7 @@ def make_TMM_lookuptable(
             name="T",
         )
         Alayer = xr.DataArray(
-            np.empty((2, 2, n_angles, len(wavelengths), n_layers)),
+            np.empty((len(sides), 2, n_angles, len(wavelengths), n_layers)),
             dims=["side", "pol", "angle", "wl", "layer"],
             coords={
                 "side": sides,
@@ -122,7 +122,7 @@ def make_TMM_lookuptable(
 
         if profile:
             Aprof = xr.DataArray(
-                np.empty((2, 2, n_angles, 6, len(prof_layers), len(wavelengths))),
+                np.empty((len(sides), 2, n_angles, 6, len(prof_layers), len(wavelengths))),
                 dims=["side", "pol", "angle", "coeff", "layer", "wl"],
                 coords={
                     "side": sides,
@@ -143,7 +143,8 @@ def make_TMM_lookuptable(
         # doesn't matter, but it needs to be set to something. Larger value means we don't make extremely large arrays
         # no reason during the calculation
 
-        for i1, side in enumerate(sides):
+        for side in sides:
+            i1 = 0 if side == 1 else 1
             prof_layer_side = prof_layer_list[i1]
             R_loop = np.empty((len(wavelengths), n_angles))
             T_loop = np.empty((len(wavelengths), n_angles))
-- 
2.43.0


From 40fa9cd2de75262615eb0738b3b586a015b7943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 11/39] fix: RCWA matrices add up orders which share a bin for
 rear incidence too

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 1e6b101..e4d7ebe 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -445,12 +445,12 @@ def RCWA_wl_inkstone(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] = mat_RT[bini, in_bin[i1]] + R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] = mat_RT[bini, in_bin[i1]] + T_pfbo[i2]
 
         # if layer_details: # not implemented yet for Inkstone
         #
@@ -632,12 +632,12 @@ def RCWA_wl(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] = mat_RT[bini, in_bin[i1]] + R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] = mat_RT[bini, in_bin[i1]] + T_pfbo[i2]
 
         if layer_details:
             f_z = np.sqrt((l_oc[layer_details] / (wl**2)) - fr_x**2 - fr_y**2)
-- 
2.43.0


From 78ba7b135ce4b33021fe507602324d51d2600ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 12/39] fix: RCWA matrices for rear incidence reverse the
 patterns along with the layers

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index e4d7ebe..902940c 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -138,7 +138,7 @@ def RCWA(
                 prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         # write a separate function that makes the OptiStack structure into an S4 object, defined materials etc.
-        geom_list = [layer.geometry for layer in structure]
+        geom_list = [layer.geometry for layer in layers]
         geom_list.insert(0, {})  # incidence medium
         geom_list.append({})  # transmission medium
 
-- 
2.43.0


From e8272bba095deca552d0814e6e4306ef247ad5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 13/39] fix: RCWA orders are binned by the azimuth in which
 they leave

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 902940c..4f8eab7 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -401,10 +401,10 @@ def RCWA_wl_inkstone(
         T_pfbo = np.real(T_pfbo)
 
         fi_x = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
         )
         fi_y = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
         )
 
         fr_x = fi_x + G_basis[:, 0] * fg_1x + G_basis[:, 1] * fg_2x
@@ -413,7 +413,7 @@ def RCWA_wl_inkstone(
         fr_z = np.sqrt((l_oc[0] / (wl**2)) - fr_x**2 - fr_y**2)
         ft_z = np.sqrt((l_oc[-1] / (wl**2)) - fr_x**2 - fr_y**2)
 
-        phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
+        phi_rt = np.arctan2(fr_y, fr_x)
         phi_rt = fold_phi(phi_rt, phi_sym)
 
         theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
@@ -588,10 +588,10 @@ def RCWA_wl(
         T_pfbo = np.real(T_pfbo)
 
         fi_x = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
         )
         fi_y = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
         )
 
         fr_x = fi_x + G_basis[:, 0] * fg_1x + G_basis[:, 1] * fg_2x
@@ -600,7 +600,7 @@ def RCWA_wl(
         fr_z = np.sqrt((l_oc[0] / (wl**2)) - fr_x**2 - fr_y**2)
         ft_z = np.sqrt((l_oc[-1] / (wl**2)) - fr_x**2 - fr_y**2)
 
-        phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
+        phi_rt = np.arctan2(fr_y, fr_x)
         phi_rt = fold_phi(phi_rt, phi_sym)
 
         theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
-- 
2.43.0


From 57217fa79e09cbceb5417fd6cb1ecd749acbe082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 14/39] fix: RCWA matrices of surfaces which reflect nothing no
 longer contain NaN

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 4f8eab7..5c979ca 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -433,7 +433,8 @@ def RCWA_wl_inkstone(
         T_pfbo[np.abs(T_pfbo < 1e-16)] = 0
 
         Rsum = np.sum(R_pfbo)
-        R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
+        if Rsum > 0:
+            R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
 
         theta_r[theta_r == 0] = 1e-10
         theta_t[theta_t == 0] = 1e-10
@@ -620,7 +621,8 @@ def RCWA_wl(
         T_pfbo[np.abs(T_pfbo < 1e-16)] = 0
 
         Rsum = np.sum(R_pfbo)
-        R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
+        if Rsum > 0:
+            R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
 
         theta_r[theta_r == 0] = 1e-10
         theta_t[theta_t == 0] = 1e-10
-- 
2.43.0


From 2a62230b98209297d8e418919c04b7d6f8d7668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 15/39] fix: RCWA profiles for rear incidence are labelled with
 the depth below the front

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 5c979ca..4103df6 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -134,8 +134,6 @@ def RCWA(
             layers = structure[::-1]
             trns = incidence
             inc = transmission
-            if prof_layers is not None:
-                prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         # write a separate function that makes the OptiStack structure into an S4 object, defined materials etc.
         geom_list = [layer.geometry for layer in layers]
@@ -155,10 +153,12 @@ def RCWA(
         layers_oc = np.zeros((len(wavelengths), len(structure) + 2), dtype=complex)
 
         if prof_layers is not None:
-            z_limit = np.sum(np.array(widths[1:-1]))
+            # depths are relative to the front of the structure for both sides of incidence
+            front_widths = widths[1:-1] if front_or_rear == "front" else widths[1:-1][::-1]
+            z_limit = np.sum(np.array(front_widths))
             full_dist = np.arange(0, z_limit, options["depth_spacing"] * 1e9)
-            layer_start = np.insert(np.cumsum(np.insert(widths[1:-1], 0, 0)), 0, 0)
-            layer_end = np.cumsum(np.insert(widths[1:-1], 0, 0))
+            layer_start = np.insert(np.cumsum(np.insert(front_widths, 0, 0)), 0, 0)
+            layer_end = np.cumsum(np.insert(front_widths, 0, 0))
 
             dist = []
 
@@ -172,8 +172,16 @@ def RCWA(
                     )
                 )
 
+            dist_in = dist
+
+            if front_or_rear != "front":
+                # depths below the rear surface. A point on the boundary between two layers belongs to the
+                # layer behind it (as in dist), so it is approached from inside that layer.
+                dist_in = np.maximum((z_limit - dist)[::-1] - 1e-6, 0)
+
         else:
             dist = None
+            dist_in = None
 
         layers_oc[:, 0] = (inc.n(wavelengths)) ** 2  # + 1j*inc.k(wavelengths))**2
         layers_oc[:, -1] = (trns.n(wavelengths) + 1j * trns.k(wavelengths)) ** 2
@@ -262,7 +270,7 @@ def RCWA(
                 S4_options,
                 detail_layer,
                 side,
-                dist,
+                dist_in,
             )
             for i1 in range(len(wavelengths))
         )
-- 
2.43.0


From a7257672c816fa6b70effce472bd2a54f893a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 16/39] fix: field and permittivity calculations use the
 complete S4 options

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 4103df6..ef23db3 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1075,7 +1075,7 @@ class rcwa_structure:
         ]
 
         if options["RCWA_method"].lower() == "s4":
-            S = initialise_S(*(args + [options["S4_options"]]))
+            S = initialise_S(*(args + [self.user_options]))
 
         elif options["RCWA_method"].lower() == "inkstone":
             S = initialise_S_inkstone(*args)
-- 
2.43.0


From 5426e4896cfa0595560d4e3b3314bc35ac01c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 17/39] fix: polygon patterns no longer move every time an
 Inkstone simulation is set up

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index ef23db3..18bb0f0 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -794,8 +794,7 @@ def initialise_S_inkstone(size, orders, geom_list, mats_oc, shapes_oc, shape_mat
 
                     if "center" in shape:
                         center = shape["center"]
-                        for i2, v in enumerate(vertices):
-                            vertices[i2] = [v[0] + center[0], v[1] + center[1]]
+                        vertices = [[v[0] + center[0], v[1] + center[1]] for v in vertices]
 
                     if "angle" in shape:
                         logger.warn("Angle not implemented for polygon shapes in Inkstone")
-- 
2.43.0


From fc2dbf409f0d3bc3b08835704b3a161d9d0a271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 18/39] fix: widths set for an RCWA structure stay as given
 when the wavelengths change

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 18bb0f0..52a0532 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1054,10 +1054,12 @@ class rcwa_structure:
         )
 
         layers_oc = (np.array(stack_OS.get_indices(wavelengths * 1e9)) ** 2).T
-        widths = stack_OS.get_widths()
 
-        self.widths = widths
-        self.width = np.sum(self.widths[1:-1]) / 1e9
+        if not hasattr(self, "widths"):
+            # keep widths which were changed with set_widths
+            self.widths = stack_OS.get_widths()
+            self.width = np.sum(self.widths[1:-1]) / 1e9
+
         self.shapes_oc = shapes_oc
         self.layers_oc = layers_oc
         self.current_wavelengths = wavelengths
@@ -1552,9 +1554,10 @@ class rcwa_structure:
         """
 
         new_widths = np.append(
-            np.insert(np.array(new_widths, dtype="f"), 0, np.inf), np.inf
+            np.insert(np.array(new_widths, dtype=float), 0, np.inf), np.inf
         ).tolist()
         self.widths = new_widths
+        self.width = np.sum(self.widths[1:-1]) / 1e9
 
     def set_size(self, new_size):
         """Allows the user to set new basis vectors for the structure.
-- 
2.43.0


From c01362e37c78d313a632dd62da3bff1c97df54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 19/39] fix: get_fields_z_integral integrates over the layer it
 was asked for

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 52a0532..5ddbf2d 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1516,7 +1516,7 @@ class rcwa_structure:
 
             for x_i, y_i in zip(range(0, total_points), range(0, total_points)):
                 calc = S.GetLayerZIntegral(
-                    Layer="layer_" + str(layer_index),
+                    Layer="layer_" + str(layer_index + 1),
                     xy=(xys[0].flatten()[x_i], xys[1].flatten()[y_i]),
                 )
                 E[ind_0[x_i], ind_1[y_i]] = calc[0]
-- 
2.43.0


From c27d5917f8a261c2a997c5972b7f499c6ed2c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 20/39] fix: RCWA profiles come with the R, A and T of the same
 structure and incidence

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 5ddbf2d..9c7b606 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1086,6 +1086,22 @@ class rcwa_structure:
 
         return S
 
+    def calculation_inputs(self, options):
+        # everything the results of calculate() depend on, to see whether they are still valid
+        return str(
+            (
+                list(options["wavelength"]),
+                options["theta_in"],
+                options["phi_in"],
+                process_pol(options["pol"]),
+                options["orders"],
+                options["RCWA_method"],
+                list(self.widths),
+                np.array(self.size).tolist(),
+                self.geom_list,
+            )
+        )
+
     def calculate(self, options):
         """Calculates the reflected, absorbed and transmitted intensity of the structure for the wavelengths and angles
         defined.
@@ -1146,6 +1162,7 @@ class rcwa_structure:
         A_mat = np.real(np.stack([item[2] for item in allres]))
 
         self.rat_output_A = np.sum(A_mat, 1)  # used for profile calculation
+        self.calculated_for = self.calculation_inputs(options)
 
         if options["A_per_order"]:
             A_order = np.real(np.stack([item[3] for item in allres]))
@@ -1189,11 +1206,10 @@ class rcwa_structure:
 
         if not np.all(options["wavelength"] == self.current_wavelengths):
             self.update_oc(options["wavelength"])
-            # if total R, A, T have already been calculated, it was for the wrong wavelengths
-            self.calculate(options)
 
-        if not hasattr(self, "rat_output_A"):
-            # Need to calculate R, A, T first
+        if getattr(self, "calculated_for", None) != self.calculation_inputs(options):
+            # Need to calculate R, A, T first; if they have already been calculated, it was for a different
+            # structure or different incident light
             self.calculate(options)
 
         dist = options["z_points"] if "z_points" in options.keys() else None
-- 
2.43.0


From 48ec636b65e53ff48bc680c933d36f2e93b2c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 21/39] fix: RCWA structures can be evaluated for a different
 number of wavelengths

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 9c7b606..76b47b6 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1129,7 +1129,7 @@ class rcwa_structure:
 
         pol = process_pol(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
             # need to update list of optical constants for correct wavelengths
             self.update_oc(options["wavelength"])
 
@@ -1204,7 +1204,7 @@ class rcwa_structure:
 
         pol = process_pol(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
             self.update_oc(options["wavelength"])
 
         if getattr(self, "calculated_for", None) != self.calculation_inputs(options):
-- 
2.43.0


From d44cd4df4fe419dde69b71fc4da2b0bc0beec5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 22/39] fix: RCWA layers with constant refractive index work
 for a single wavelength

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 76b47b6..f4ea952 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -975,9 +975,9 @@ class rcwa_structure:
                     list_for_OS.append(
                         [
                             layer[0],
-                            wavelengths,
-                            layer[1] * np.ones_like(wavelengths),
-                            layer[2] * np.ones_like(wavelengths),
+                            np.array([0, 1]),  # constant; the interpolation needs two points
+                            layer[1] * np.ones(2),
+                            layer[2] * np.ones(2),
                         ]
                     )
 
-- 
2.43.0


From b5e11e89086b8eae1e8344265a671c0727eec75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 23/39] fix: diffraction orders are returned with the azimuth
 in which they leave

---
 rayflare/analytic/diffraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rayflare/analytic/diffraction.py b/rayflare/analytic/diffraction.py
index 6b7f767..9828821 100644
--- a/rayflare/analytic/diffraction.py
+++ b/rayflare/analytic/diffraction.py
@@ -75,8 +75,8 @@ def get_order_directions(
         n_out = transmission.n(wl * 1e-9)
         k_out = transmission.k(wl * 1e-9)
 
-    fi_x = np.real((n_in / wl) * np.sin(theta) * np.sin(phi))
-    fi_y = np.real((n_in / wl) * np.sin(theta) * np.cos(phi))
+    fi_x = np.real((n_in / wl) * np.sin(theta) * np.cos(phi))
+    fi_y = np.real((n_in / wl) * np.sin(theta) * np.sin(phi))
 
     xy = np.arange(-m_max, m_max + 1, 1)
 
@@ -93,7 +93,7 @@ def get_order_directions(
 
     ft_z = np.sqrt((eps_sub / (wl**2))[:, None] - fr_x**2 - fr_y**2)
 
-    phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
+    phi_rt = np.arctan2(fr_y, fr_x)
     phi_rt = fold_phi(phi_rt, phi_sym)
     theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
     theta_t = np.pi - np.real(
-- 
2.43.0


From 0da04f53a1af2eaadda332bad33f2de5146e166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 24/39] fix: diffraction orders accept a constant complex
 refractive index

---
 rayflare/analytic/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/analytic/diffraction.py b/rayflare/analytic/diffraction.py
index 9828821..0392dc4 100644
--- a/rayflare/analytic/diffraction.py
+++ b/rayflare/analytic/diffraction.py
@@ -50,7 +50,7 @@ def get_order_directions(
                 "Optical constant array of incidence medium has different length to wavelength array"
             )
 
-    elif isinstance(incidence, (int, float)):
+    elif isinstance(incidence, (int, float, complex)):
         n_in = np.real(incidence)
         k_in = np.imag(incidence)
 
@@ -67,7 +67,7 @@ def get_order_directions(
                 "Optical constant array of incidence medium has different length to wavelength array"
             )
 
-    elif isinstance(transmission, (int, float)):
+    elif isinstance(transmission, (int, float, complex)):
         n_out = np.real(transmission)
         k_out = np.imag(transmission)
 
-- 
2.43.0


From 28d3b826d411c355bd1d7b3a09ea725a7a96f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 25/39] fix: generation function when only some parts of a
 matrix-method structure have profiles

---
 rayflare/utilities.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index c7c2733..d25a1a5 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -33,7 +33,7 @@ def make_absorption_function(result, structure, options):
     from rayflare.transfer_matrix_method import tmm_structure
     from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
     from rayflare.ray_tracing import rt_structure
-    from rayflare.structure import Structure
+    from rayflare.structure import Structure, Interface
 
     get_wavelength(options)
     # determine the type of structure to figure out how to process the result:
@@ -68,9 +68,17 @@ def make_absorption_function(result, structure, options):
 
     if matrix_method:
 
-        profile_front = result[2][0]
-        profile_bulk = result[3][0]
-        profile_back = result[2][1]
+        # result[2] only has an entry for interfaces where profiles were requested
+        profiles = {}
+        if len(result) > 2:
+            interfaces = [x for x in structure if isinstance(x, Interface)]
+            calculated = [
+                i1 for i1, x in enumerate(interfaces) if x.prof_layers is not None
+            ]
+            profiles = dict(zip(calculated, result[2]))
+
+        profile_front = profiles.get(0)
+        profile_back = profiles.get(1)
 
         widths_front = np.array(structure[0].widths) * 1e9  # in nm
         width_bulk = np.array(structure[1].width) * 1e6  # in um
@@ -127,12 +135,12 @@ def make_absorption_function(result, structure, options):
                 )
                 index_offset += ind_diff
 
-        if options.bulk_profile:
+        if options.bulk_profile and len(result) > 3:
 
-            prof_bulk = profile_bulk[:, : len(bulk_positions)]  # already in m-1
+            prof_bulk = result[3][0][:, : len(bulk_positions)]  # already in m-1
 
         else:
-            prof_bulk = np.zeros_like(bulk_positions)
+            prof_bulk = np.zeros((len(options.wavelength), len(bulk_positions)))
 
         all_positions = np.hstack(
             (
-- 
2.43.0


From fdec1e36e4da2d41367eb666a2e7e13259d7f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:58 +0000
Subject: [PATCH 26/39] fix: bulk layers of ray-traced structures keep their
 positions in the generation function

---
 rayflare/utilities.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index d25a1a5..a63d740 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -251,9 +251,8 @@ def make_absorption_function(result, structure, options):
                         1e9
                         * data[:, index_offset_bulk : (index_offset_bulk + ind_diff)]
                     )  # convert from nm-1 to m-1
-                    pos_from_zero = bulk_positions[indices] - np.min(
-                        bulk_positions[indices]
-                    )
+                    # the first point is not necessarily at the start of the layer
+                    pos_from_zero = bulk_positions[indices] - layer_start_bulk[i1]
                     # print(bulk_prof)
                     index_offset_bulk += ind_diff
 
-- 
2.43.0


From c827df05660e2afb7d977cbf2f1aa607d86158e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:58 +0000
Subject: [PATCH 27/39] fix: generation function positions match the profile
 for every layer width

---
 rayflare/utilities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index a63d740..6da5570 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -266,7 +266,13 @@ def make_absorption_function(result, structure, options):
 
         else:
 
-            positions = np.arange(0, structure.width*1e6, depth_spacing*1e6)/1e6
+            # one point per column of the profile: rounding of the width should not add or remove one
+            n_points = np.shape(result["profile"])[1]
+            if abs(n_points - structure.width / depth_spacing) > 1.5:
+                raise ValueError(
+                    "The absorption profile does not cover the whole structure; it should be calculated for all layers."
+                )
+            positions = np.arange(0, n_points) * depth_spacing
             diff_absorb_fn = interp1d(positions, 1e9 * result["profile"])
 
         return positions, diff_absorb_fn
-- 
2.43.0


From 5f5ca249b3a26be18272b0e526cc3795fbcbef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 28/39] fix: profiles of ray-traced interface layers are placed
 at the depths for which they were calculated

---
 rayflare/ray_tracing/rt.py |   5 +-
 rayflare/utilities.py      | 149 +++++++++++++++++--------------------
 2 files changed, 72 insertions(+), 82 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 7dfe587..1eff897 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1350,7 +1350,10 @@ def make_profiles_wl(
     z_list = []
 
     for l_w in widths:
-        z_list.append(xr.DataArray(np.arange(0, l_w, depth_spacing)))
+        # rounding of the width should not add a point at the far side of the layer
+        z_list.append(
+            xr.DataArray(np.arange(0, l_w - 1e-6 * depth_spacing, depth_spacing))
+        )
 
     offsets = np.cumsum([0] + widths)[:-1]
 
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 6da5570..4ba22ae 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -87,53 +87,14 @@ def make_absorption_function(result, structure, options):
         d_ints = options.depth_spacing * 1e9  # m to nm
         d_bulk = options.depth_spacing_bulk * 1e6  # m to um
 
-        front_positions = np.arange(0, np.sum(widths_front) - 1e-12, d_ints)  # in nm
         bulk_positions = np.arange(0, width_bulk - 1e-12, d_bulk)  # in um
-        back_positions = np.arange(0, np.sum(widths_back) - 1e-12, d_ints)  # in nm
 
-        layer_start = np.insert(np.cumsum(np.insert(widths_front, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_front, 0, 0))
-
-        prof_front = np.zeros((len(options.wavelength), len(front_positions)))
-
-        if structure[0].prof_layers is not None:
-
-            index_offset = 0
-
-            for i1 in structure[0].prof_layers:
-                indices = np.logical_and(
-                    front_positions >= layer_start[i1], front_positions < layer_end[i1]
-                )
-                ind_diff = np.sum(indices)
-                prof_front[:, indices] = (
-                    1e9
-                    * profile_front[
-                        :, index_offset : (index_offset + ind_diff)
-                    ]  # convert from nm-1 to m-1
-                )
-                index_offset += ind_diff
-
-        layer_start = np.insert(np.cumsum(np.insert(widths_back, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_back, 0, 0))
-
-        prof_back = np.zeros((len(options.wavelength), len(back_positions)))
-
-        if structure[2].prof_layers is not None:
-
-            index_offset = 0
-
-            for i1 in structure[2].prof_layers:
-                indices = np.logical_and(
-                    back_positions >= layer_start[i1], back_positions < layer_end[i1]
-                )
-                ind_diff = np.sum(indices)
-                prof_back[:, indices] = (
-                    1e9
-                    * profile_back[
-                        :, index_offset : (index_offset + ind_diff)
-                    ]  # convert from nm-1 to m-1
-                )
-                index_offset += ind_diff
+        front_positions, prof_front = place_interface_profile(
+            profile_front, structure[0], widths_front, d_ints, len(options.wavelength)
+        )
+        back_positions, prof_back = place_interface_profile(
+            profile_back, structure[2], widths_back, d_ints, len(options.wavelength)
+        )
 
         if options.bulk_profile and len(result) > 3:
 
@@ -179,50 +140,23 @@ def make_absorption_function(result, structure, options):
 
             for i1, surf in enumerate(structure.surfaces):
 
-                index_offset_surf = 0  # data for each interface is saved separately in a list in result["interface_profiles"]
-
                 if structure.tmm_or_fresnel[i1] == 1:  # tmm interface
 
-                    surf_positions = np.arange(
-                        0,
-                        np.sum(structure.interface_layer_widths[i1]),
+                    surf_positions, layer_index = interface_positions(
+                        structure.interface_layer_widths[i1],
                         options.depth_spacing * 1e9,
+                        per_layer=True,
                     )
                     surf_prof = np.zeros(
                         (len(options.wavelength), len(surf_positions))
                     )
 
-                    if hasattr(surf, "prof_layers"):
-
-                        data = result["interface_profiles"][i1]
-
-                        layer_start = np.insert(
-                            np.cumsum(
-                                np.insert(structure.interface_layer_widths[i1], 0, 0)
-                            ),
-                            0,
-                            0,
-                        )
-                        # insert 0 because prof_layers in 1-indexed
-                        layer_end = np.cumsum(
-                            np.insert(structure.interface_layer_widths[i1], 0, 0)
-                        )
-
-                        for j1 in surf.prof_layers:
-                            indices = np.logical_and(
-                                surf_positions >= layer_start[j1],
-                                surf_positions < layer_end[j1],
-                            )
-                            ind_diff = np.sum(indices)
-
-                            surf_prof[:, indices] = (
-                                1e9
-                                * data[
-                                    :,
-                                    index_offset_surf : (index_offset_surf + ind_diff),
-                                ]  # convert from nm-1 to m-1
-                            )
-                            index_offset_surf += ind_diff
+                    # data for each interface is saved separately in a list in result["interface_profiles"]
+                    if getattr(surf, "prof_layers", None) is not None:
+
+                        surf_prof[:, np.isin(layer_index, surf.prof_layers)] = (
+                            1e9 * result["interface_profiles"][i1]
+                        )  # convert from nm-1 to m-1
 
                     all_data.append(surf_prof)
                     all_positions.append(
@@ -278,6 +212,59 @@ def make_absorption_function(result, structure, options):
         return positions, diff_absorb_fn
 
 
+def interface_positions(widths, spacing, per_layer):
+    """
+    Depths at which absorption profiles are stored in an interface.
+
+    :param widths: widths of the layers in the interface (nm)
+    :param spacing: depth spacing (nm)
+    :param per_layer: if True, the points start again at the front of each layer, as is the case for ray-tracing with
+            TMM lookup tables. If False, the points are equally spaced through the whole interface (TMM and RCWA).
+
+    :return: positions (in nm), and the index of the layer (starting from 1) to which each position belongs
+    """
+    edges = np.cumsum(np.insert(np.array(widths, dtype=float), 0, 0))
+
+    if per_layer:
+        # rounding of the width should not add a point at the far side of the layer
+        points = [np.arange(0, w - 1e-6 * spacing, spacing) for w in widths]
+        positions = np.hstack([[]] + [z + z0 for z, z0 in zip(points, edges)])
+        layer_index = np.repeat(
+            np.arange(1, len(points) + 1), [len(z) for z in points]
+        )
+
+    else:
+        positions = np.arange(0, edges[-1] - 1e-12, spacing)
+        layer_index = np.searchsorted(edges, positions, side="right")
+
+    return positions, layer_index
+
+
+def place_interface_profile(profile, interface, widths, spacing, n_wavelengths):
+    """
+    Absorption profile (in m-1) through all the layers of an interface, which is zero in the layers for which no profile was
+    calculated, and the corresponding depths (nm).
+    """
+    positions, layer_index = interface_positions(
+        widths, spacing, per_layer=interface.method == "RT_TMM"
+    )
+    full_profile = np.zeros((n_wavelengths, len(positions)))
+
+    if interface.prof_layers is not None and profile is not None:
+
+        index_offset = 0
+
+        for i1 in interface.prof_layers:
+            indices = layer_index == i1
+            ind_diff = np.sum(indices)
+            full_profile[:, indices] = (
+                1e9 * profile[:, index_offset : (index_offset + ind_diff)]
+            )  # convert from nm-1 to m-1
+            index_offset += ind_diff
+
+    return positions, full_profile
+
+
 def get_matrices_or_paths(
     structpath, surf_name, front_or_rear, prof_layers=None, overwrite=False
 ):
-- 
2.43.0


From b3373e803819f666ec1509db48ad2b0b5e28ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 29/39] fix: generation function assigns points at layer edges
 as in the profile calculation

---
 rayflare/utilities.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 4ba22ae..acac932 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -7,6 +7,7 @@
 
 import numpy as np
 from solcore.interpolate import interp1d
+from solcore.absorption_calculator import OptiStack
 import os
 from sparse import load_npz
 import xarray as xr
@@ -245,8 +246,15 @@ def place_interface_profile(profile, interface, widths, spacing, n_wavelengths):
     Absorption profile (in m-1) through all the layers of an interface, which is zero in the layers for which no profile was
     calculated, and the corresponding depths (nm).
     """
+    ray_tracing = interface.method == "RT_TMM"
+
+    if not ray_tracing and interface.layers is not None:
+        # same values, also in the last digit, as in the calculation of the profile: it decides to which layer the
+        # points at the edges of a layer belong
+        widths = OptiStack(interface.layers).widths
+
     positions, layer_index = interface_positions(
-        widths, spacing, per_layer=interface.method == "RT_TMM"
+        widths, spacing, per_layer=ray_tracing
     )
     full_profile = np.zeros((n_wavelengths, len(positions)))
 
-- 
2.43.0


From 09132124e81f81ec20286571132bbac7e0ab8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 30/39] fix: generation function assigns bulk points of
 ray-traced structures to layers as in the calculation

---
 rayflare/utilities.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index acac932..61a04ac 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -127,17 +127,13 @@ def make_absorption_function(result, structure, options):
             all_positions = []
 
             cumulative_width = 0  # cumulative width in nm
-            index_offset_bulk = 0
 
-            layer_start_bulk = np.insert(np.cumsum(structure.widths, 0), 0, 0)
-            layer_end_bulk = np.cumsum(structure.widths, 0)
-
-            bulk_positions = (
-                np.arange(
-                    0, np.sum(structure.widths) * 1e6, options.depth_spacing_bulk * 1e6
-                )
-                / 1e6
-            )  # widths and spacing are in m
+            # edges of the bulk layers and depths of the points in um, as in rt_structure.calculate, so that the points are
+            # assigned to the same layers
+            bulk_edges = np.cumsum(1e6 * np.array([0] + list(structure.widths)))
+            bulk_positions = np.arange(0, np.shape(result["profile"])[1]) * (
+                1e6 * options.depth_spacing_bulk
+            )
 
             for i1, surf in enumerate(structure.surfaces):
 
@@ -176,20 +172,12 @@ def make_absorption_function(result, structure, options):
                     data = result["profile"]
 
                     indices = np.logical_and(
-                        bulk_positions >= layer_start_bulk[i1],
-                        bulk_positions < layer_end_bulk[i1],
+                        bulk_positions >= bulk_edges[i1],
+                        bulk_positions < bulk_edges[i1 + 1],
                     )
-                    # print(layer_start_bulk[i1], layer_end_bulk[i1])
-                    # print(indices)
-                    ind_diff = np.sum(indices)
-                    bulk_prof = (
-                        1e9
-                        * data[:, index_offset_bulk : (index_offset_bulk + ind_diff)]
-                    )  # convert from nm-1 to m-1
+                    bulk_prof = 1e9 * data[:, indices]  # convert from nm-1 to m-1
                     # the first point is not necessarily at the start of the layer
-                    pos_from_zero = bulk_positions[indices] - layer_start_bulk[i1]
-                    # print(bulk_prof)
-                    index_offset_bulk += ind_diff
+                    pos_from_zero = (bulk_positions[indices] - bulk_edges[i1]) / 1e6
 
                     all_data.append(bulk_prof)
                     all_positions.append(pos_from_zero + cumulative_width)
-- 
2.43.0


From df05db459f861c6b709e7e53213f571ade82cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:58 +0000
Subject: [PATCH 31/39] fix: existing lookup table without profile information
 is recalculated when profiles are requested

---
 .../transfer_matrix_method/lookup_table.py    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index ff3c28f..bce1230 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -15,6 +15,20 @@ from solcore.absorption_calculator import OptiStack
 import logging
 logging.basicConfig(format='%(levelname)s: %(message)s',level=logging.INFO)
 
+def has_profile(lookuptable, prof_layers):
+    """
+    Checks whether a lookup table contains the absorption profile information for all of the specified layers.
+
+    :param lookuptable: xarray Dataset as generated by make_TMM_lookuptable
+    :param prof_layers: list of (1-indexed) layers for which the profile is required
+    :return: True if the information for all the layers is available, False otherwise
+    """
+    if "Aprof" not in lookuptable or not np.all(np.isin(prof_layers, lookuptable["layer"])):
+        return False
+
+    return bool(lookuptable["Aprof"].sel(layer=prof_layers).notnull().all())
+
+
 def make_TMM_lookuptable(
     layers,
     incidence,
@@ -55,9 +69,19 @@ def make_TMM_lookuptable(
         sides = [1, -1]
 
     savepath = os.path.join(structpath, surf_name + ".nc")
+    existing = None
+
     if os.path.isfile(savepath) and not overwrite:
         logging.info("Existing lookup table found")
-        allres = xr.open_dataset(savepath)
+        existing = xr.open_dataset(savepath)
+
+        if prof_layers is not None and not has_profile(existing, prof_layers):
+            logging.info("Recalculating lookup table with absorption profile information")
+            existing.close()
+            existing = None
+
+    if existing is not None:
+        allres = existing
     else:
         get_wavelength(options)
         wavelengths = options["wavelength"]
-- 
2.43.0


From d6d8916784ecbf4066e15359fb2648771d79f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 32/39] fix: stored results of different calculations are never
 mixed

---
 rayflare/matrix_formalism/ideal_cases.py        |  4 +++-
 rayflare/ray_tracing/rt.py                      |  3 ++-
 rayflare/rigorous_coupled_wave_analysis/rcwa.py |  3 ++-
 rayflare/transfer_matrix_method/tmm.py          |  3 ++-
 rayflare/utilities.py                           | 16 ++++++++++++++++
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index a718e38..e44f9a3 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -8,7 +8,7 @@
 import numpy as np
 from sparse import COO, save_npz
 from rayflare.angles import fold_phi
-from rayflare.utilities import get_matrices_or_paths
+from rayflare.utilities import get_matrices_or_paths, remove_outdated_matrices
 
 
 def lambertian_matrix(
@@ -77,6 +77,7 @@ def lambertian_matrix(
         absArray = COO.from_numpy(A_matrix)
 
         if save:
+            remove_outdated_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], allArray)
             save_npz(path_or_mats[1], absArray)
 
@@ -156,6 +157,7 @@ def mirror_matrix(
         absArray = COO.from_numpy(A_matrix)
 
         if save:
+            remove_outdated_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], allArray)
             save_npz(path_or_mats[1], absArray)
 
diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 1eff897..a7153b3 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -20,7 +20,7 @@ from warnings import warn
 from solcore.state import State
 
 from rayflare.angles import fold_phi, make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, get_savepath, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, get_savepath, get_wavelength, remove_outdated_matrices
 from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
 
 from rayflare import logger
@@ -246,6 +246,7 @@ def RT(
         absArrays = stack([item[1] for item in allres])
 
         if save:
+            remove_outdated_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], allArrays)
             save_npz(path_or_mats[1], absArrays)
 
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index f4ea952..cbda307 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -15,7 +15,7 @@ from solcore.state import State
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, get_wavelength, remove_outdated_matrices
 
 from inkstone import Inkstone
 
@@ -281,6 +281,7 @@ def RCWA(
         A_mat = COO.from_numpy(A_mat)
 
         if save:
+            remove_outdated_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], full_mat)
             save_npz(path_or_mats[1], A_mat)
 
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 5e70141..d12f0b6 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -13,7 +13,7 @@ from solcore.absorption_calculator import tmm_core_vec as tmm
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi
-from rayflare.utilities import get_matrices_or_paths, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, get_wavelength, remove_outdated_matrices
 
 
 def TMM(
@@ -349,6 +349,7 @@ def TMM(
         A_mat = stack([item[1] for item in mats])
 
         if save:
+            remove_outdated_matrices(structpath, surf_name, front_or_rear)
             save_npz(path_or_mats[0], fullmat)
             save_npz(path_or_mats[1], A_mat)
 
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 61a04ac..16f091a 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -299,6 +299,22 @@ def get_matrices_or_paths(
             return [False, [savepath_RT, savepath_A]]
 
 
+def remove_outdated_matrices(structpath, surf_name, front_or_rear):
+    """
+    Removes any stored results for a surface and side of incidence. To be used before results of a new calculation are
+    stored, so that they are never mixed with those of an earlier calculation (if the absorption profile is
+    not calculated this time, or storing the new results gets interrupted).
+
+    :param structpath: file path where the matrices are stored
+    :param surf_name: name of the surface
+    :param front_or_rear: side of incidence, 'front' or 'rear'
+    """
+    for ending in ["RT.npz", "A.npz", "profmat.nc"]:
+        path = os.path.join(structpath, surf_name + front_or_rear + ending)
+        if os.path.isfile(path):
+            os.remove(path)
+
+
 def get_savepath(save_location, project_name):
     """
     Returns the full path where matrices will be stored.
-- 
2.43.0


From 9098a40c3f665d608a49629e6c9a3c9f05a8b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:26 +0000
Subject: [PATCH 33/39] fix: surfaces with integer coordinates can be placed at
 any depth

---
 rayflare/ray_tracing/rt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index a7153b3..d4d656b 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1401,6 +1401,9 @@ class RTSurface:
         else:
             self.distribution = None
 
+        # integer coordinates (e.g. a planar surface) would be truncated when the surface is moved
+        Points = np.array(Points, dtype=float)
+
         tri = Delaunay(Points[:, [0, 1]])
         self.simplices = tri.simplices
         self.Points = Points
-- 
2.43.0


From cb17faf3ca4a80de4d1352a4dc0c8df781616cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:26 +0000
Subject: [PATCH 34/39] fix: random heights are drawn about the current
 position of a surface

---
 rayflare/ray_tracing/rt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index d4d656b..01355a2 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1488,6 +1488,7 @@ class RTSurface:
 
     def shift(self, z_shift):
         self.Points[:, 2] = self.Points[:, 2] - z_shift
+        self.original_Points[:, 2] = self.original_Points[:, 2] - z_shift
         self.P_0s = self.Points[self.simplices[:, 0]]
         self.P_1s = self.Points[self.simplices[:, 1]]
         self.P_2s = self.Points[self.simplices[:, 2]]
-- 
2.43.0


From 42676836fe67a48564227ea7ac43c7a9887af96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:26 +0000
Subject: [PATCH 35/39] fix: coverage height of the rear surface has the
 opposite sign

---
 rayflare/textures/define_textures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rayflare/textures/define_textures.py b/rayflare/textures/define_textures.py
index 210473a..341beaa 100644
--- a/rayflare/textures/define_textures.py
+++ b/rayflare/textures/define_textures.py
@@ -22,6 +22,10 @@ def xyz_texture(x, y, z, **kwargs):
     surf_fi = RTSurface(Points, **kwargs)
 
     Points_ri = np.vstack([x, y, -z]).T
+
+    if "coverage_height" in kwargs:
+        kwargs = dict(kwargs, coverage_height=-kwargs["coverage_height"])
+
     surf_ri = RTSurface(Points_ri, **kwargs)
 
     return [surf_fi, surf_ri]
-- 
2.43.0


From ddfe8f3a617a90faa19860dd21d6568cd073cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:26 +0000
Subject: [PATCH 36/39] fix: height maps with different numbers of points along
 x and y

---
 rayflare/textures/define_textures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rayflare/textures/define_textures.py b/rayflare/textures/define_textures.py
index 341beaa..e54521d 100644
--- a/rayflare/textures/define_textures.py
+++ b/rayflare/textures/define_textures.py
@@ -41,8 +41,9 @@ def heights_texture(z_points, x_width, y_width, **kwargs):
     :return: a list of two RTSurface objects: [front_incidence, rear_incidence]
     """
 
-    x = np.linspace(0, x_width, z_points.shape[0])
-    y = np.linspace(0, y_width, z_points.shape[1])
+    # columns of z_points lie along x and rows along y (see np.meshgrid)
+    x = np.linspace(0, x_width, z_points.shape[1])
+    y = np.linspace(0, y_width, z_points.shape[0])
 
     xy = np.meshgrid(x, y)
 
-- 
2.43.0


From f57145dd196c2411b2b1c11e5932162f9baac703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:40 +0000
Subject: [PATCH 37/39] fix: interface absorption profiles were zero for a
 single wavelength

---
 rayflare/ray_tracing/rt.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 01355a2..e91d7fb 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -626,7 +626,7 @@ def calculate_interface_profiles(
 
         A_lookup_front = lookuptable.Alayer.loc[
             dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[front_incidence])
         data_front = data_prof_layers[front_incidence]
 
         ## CHECK! ##
@@ -647,7 +647,7 @@ def calculate_interface_profiles(
 
         params_front = lookuptable.Aprof.loc[
             dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[front_incidence])
 
         s_params = params_front.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -675,7 +675,7 @@ def calculate_interface_profiles(
 
         A_lookup_back = lookuptable.Alayer.loc[
             dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[rear_incidence])
 
         data_back = data_prof_layers[rear_incidence]
 
@@ -687,7 +687,7 @@ def calculate_interface_profiles(
 
         params_back = lookuptable.Aprof.loc[
             dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[rear_incidence])
 
         s_params = params_back.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -1325,8 +1325,10 @@ def make_profiles_wl(
 
     # lookuptable layers are 1-indexed
 
-    data = lookuptable.loc[dict(side=1, pol=pol)].interp(
-        angle=pr.coords["local_theta"], wl=wl * 1e9
+    data = (
+        lookuptable.loc[dict(side=1, pol=pol)]
+        .sel(wl=wl * 1e9, method="nearest")
+        .interp(angle=pr.coords["local_theta"])
     )
 
     params = (
-- 
2.43.0


From 8e14be52bdb8a3a99b374c828d3cbe434f0108b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:29 +0000
Subject: [PATCH 38/39] fix: rays starting in the transmission medium started
 above the rear surface

---
 rayflare/ray_tracing/rt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index e91d7fb..bea8eac 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1643,6 +1643,10 @@ def single_ray_stack(
         surf_index = mat_i - 1
         z_offset = -cum_width[surf_below] + 1e-8
 
+        if mat_i == len(widths) - 1:
+            # transmission medium: the ray has to start below the rear surface to meet it
+            z_offset = surfaces[surf_index].z_min - 1e-8
+
     stop = False
     I = 1
 
-- 
2.43.0


From 33a4a8fb7f522cd06d51b978d18b323e9862ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:35 +0000
Subject: [PATCH 39/39] fix: tmm_structure.set_widths keeps the total width up
 to date

The total width was that of the original layers, so that make_absorption_function rejected
(or misplaced) profiles calculated after the widths were changed.
---
 rayflare/transfer_matrix_method/tmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index d12f0b6..02c0256 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -740,6 +740,7 @@ class tmm_structure:
     def set_widths(self, new_widths):
 
         self.layer_stack.set_widths(new_widths)
+        self.width = np.sum(new_widths) / 1e9
 
     def build_coh_list(self, options):
 
-- 
2.43.0

