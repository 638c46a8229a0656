From 26b6847fef5f0d747d173097dd1103f0a940cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:06 +0000
Subject: [PATCH 01/23] fix: test z (not r) against the z boundary in linear
 deposition

Particles beyond cell nz-1 along r were deposited with the longitudinal
shape factor of the upper z boundary whenever nr > nz.
---
 wake_t/particles/deposition.py                                  | 2 +-
 .../plasma_wakefields/qs_rz_baxevanis/deposition.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/deposition.py b/wake_t/particles/deposition.py
index 33e1dda..b3a1eaa 100644
--- a/wake_t/particles/deposition.py
+++ b/wake_t/particles/deposition.py
@@ -117,7 +117,7 @@ def deposit_3d_distribution_linear(z, x, y, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
index a4938a9..5b302df 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
@@ -87,7 +87,7 @@ def deposit_plasma_particles_linear(z_cell, r, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
-- 
2.43.0


From d16554c6a51dcfac5d6f566ee4b88a02267ee46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 02/23] fix: use the last sub/super-diagonal coefficients in
 the last TDMA row

The last row was eliminated with a[-2] and w[-2], so the returned vector did
not solve the given tridiagonal system.
---
 wake_t/physics_models/laser/tdma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/tdma.py b/wake_t/physics_models/laser/tdma.py
index f41f9c5..42e8b68 100644
--- a/wake_t/physics_models/laser/tdma.py
+++ b/wake_t/physics_models/laser/tdma.py
@@ -42,7 +42,7 @@ def TDMA(a, b, c, d, p):
         g[i] = (d[i] - a_im1 * g[i - 1]) * inv_coef
         w[i] = c[i] * inv_coef
 
-    g[-1] = (d[-1] - a[-2] * g[-2]) / (b[-1] - a[-2] * w[-2])
+    g[-1] = (d[-1] - a[-1] * g[-2]) / (b[-1] - a[-1] * w[-1])
 
     # Fill in output array.
     p[-1] = g[-1]
-- 
2.43.0


From fbc23fcb7e2b8b97824d9e3b9f35f41effab84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 03/23] fix: give on-axis particles finite gathered wakefields

The unit vector was computed as 1/r, so a particle located exactly on axis
received NaN transverse fields.
---
 wake_t/particles/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/particles/interpolation.py b/wake_t/particles/interpolation.py
index 7bfe378..28394a6 100644
--- a/wake_t/particles/interpolation.py
+++ b/wake_t/particles/interpolation.py
@@ -124,7 +124,7 @@ def gather_main_fields_cyl_linear(
         y_i = y[i]
         z_i = z[i]
         r_i = math.sqrt(x_i**2 + y_i**2)
-        inv_r_i = 1./r_i
+        inv_r_i = 1./r_i if r_i > 0. else 0.
 
         # Gather field only if particle is within field boundaries.
         if z_i >= z_min and z_i <= z_max and r_i <= r_max:
-- 
2.43.0


From 3459c2d9fcbcbff9f47342311cdeb358cd905b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 04/23] fix: reject any change of the laser grid after
 initialization

The grid parameters were only considered changed when all of them differed.
---
 wake_t/physics_models/laser/laser_pulse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 7576e95..3479e84 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -128,10 +128,10 @@ class LaserPulse():
         if self.n_steps > 0:
             # Check that grid parameters have not changed.
             if (
-                solver_params['zmin'] != self.solver_params['zmin'] and
-                solver_params['zmax'] != self.solver_params['zmax'] and
-                solver_params['rmax'] != self.solver_params['rmax'] and
-                solver_params['nz'] != self.solver_params['nz'] and
+                solver_params['zmin'] != self.solver_params['zmin'] or
+                solver_params['zmax'] != self.solver_params['zmax'] or
+                solver_params['rmax'] != self.solver_params['rmax'] or
+                solver_params['nz'] != self.solver_params['nz'] or
                 solver_params['nr'] != self.solver_params['nr']
             ):
                 raise ValueError(
-- 
2.43.0


From 2cb6ec5734caac8a6a56d1c295c2d9c4702ecf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 05/23] fix: keep the polarization of summed laser pulses

A sum of circularly polarized pulses was treated as linearly polarized.
---
 wake_t/physics_models/laser/laser_pulse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 3479e84..f5f422d 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -338,7 +338,11 @@ class SummedPulse(LaserPulse):
             raise ValueError(
                 'Only laser pulses with the same central wavelength'
                 ' can currently be summed.')
-        super().__init__(pulse_1.l_0)
+        if pulse_1.polarization != pulse_2.polarization:
+            raise ValueError(
+                'Only laser pulses with the same polarization'
+                ' can currently be summed.')
+        super().__init__(pulse_1.l_0, pulse_1.polarization)
         self.pulse_1 = pulse_1
         self.pulse_2 = pulse_2
 
-- 
2.43.0


From 4c9ec8aae7014cf3d102523881bb2d87b4453334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 06/23] fix: clear the step sizes of previous elements in
 CSRCalculator.clear

After clearing, new elements were tracked with the CSR step sizes of the
elements of the previous beamline.
---
 wake_t/physics_models/collective_effects/csr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 098b0d8..2a5869d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -52,6 +52,7 @@ class CSRCalculator():
         self._ref_traj = None
         self._lattice_elements = []
         self._lattice_element_steps = []
+        self._lattice_element_traj_steps = []
 
     def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
         """
-- 
2.43.0


From 415e0fe8713dfbfe908a27c4bed0ad2168f5c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 07/23] fix: include tags, t_flight and z_injection in
 ParticleBunch.copy

---
 wake_t/particles/particle_bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 09e3018..01d6f8e 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -311,7 +311,10 @@ class ParticleBunch():
             px=deepcopy(self.px),
             py=deepcopy(self.py),
             pz=deepcopy(self.pz),
+            tags=deepcopy(self.tags),
             prop_distance=deepcopy(self.prop_distance),
+            t_flight=deepcopy(self.t_flight),
+            z_injection=deepcopy(self.z_injection),
             name=deepcopy(self.name),
             q_species=deepcopy(self.q_species),
             m_species=deepcopy(self.m_species)
-- 
2.43.0


From e90cd44dd87f884d3e298a41bd7bd6ae0dcd784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 08/23] fix: read stored parameters with the h5py 3 API

Dataset.value was removed, so reading a saved file always failed.
---
 wake_t/diagnostics/bunch_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index b25d119..0f06d34 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -89,7 +89,7 @@ def read_parameters_from_file(file_path):
     bunch_params = {}
     with H5File(file_path, 'r') as h5_file:
         for param in h5_file.keys():
-            bunch_params[param] = h5_file.get(param).value
+            bunch_params[param] = h5_file.get(param)[()]
     return bunch_params
 
 
-- 
2.43.0


From 4c6b5b32bfa5d005ee9afece020149b90abce0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 09/23] fix: parabolic-channel term in the boundary condition
 of dxi_psi

The derivative of the channel contribution at the boundary is
pc * r_max**4 / 4, consistent with delta_psi_eq.
---
 .../plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
index e9d6642..aa178e6 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
@@ -153,7 +153,7 @@ def calculate_psi_and_derivatives_at_particles(
     if r_right <= r_max:
         dxi_psi_pp += sum_3
     else:
-        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max/4)
+        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max**4/4)
                                * pr_i / (r_right * (1 + psi_i)))
 
     # Again, near the peak of a strong blowout, very large and unphysical
-- 
2.43.0


From b8268bf67e26235f6a424a3780a0c3e9bb426f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:53 +0000
Subject: [PATCH 10/23] fix: add the blowout fields to those of the other
 fields

The blowout models overwrote the particle field arrays, discarding the
contribution of every field gathered before them.
---
 wake_t/physics_models/plasma_wakefields/custom_blowout.py   | 6 +++---
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 4 ++--
 wake_t/physics_models/plasma_wakefields/simple_blowout.py   | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wake_t/physics_models/plasma_wakefields/custom_blowout.py b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
index 1f1a364..50c1b4d 100644
--- a/wake_t/physics_models/plasma_wakefields/custom_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
@@ -38,12 +38,12 @@ class CustomBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_0 = constants[1]
@@ -53,7 +53,7 @@ class CustomBlowoutWakefield(AnalyticalField):
 
             xi_off = - xi_fields + (1 - b_w) * ct.c * t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_0 + e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index 23bc5ed..de59416 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -11,11 +11,11 @@ class FocusingBlowoutField(AnalyticalField):
 
         def e_x(x, y, xi, t, ex, k):
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k[i] * x[i]
+                ex[i] += ct.c * k[i] * x[i]
 
         def e_y(x, y, xi, t, ey, k):
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k[i] * y[i]
+                ey[i] += ct.c * k[i] * y[i]
 
         super().__init__(e_x=e_x, e_y=e_y)
 
diff --git a/wake_t/physics_models/plasma_wakefields/simple_blowout.py b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
index 41caa13..85c2ea3 100644
--- a/wake_t/physics_models/plasma_wakefields/simple_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
@@ -18,12 +18,12 @@ class SimpleBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_p = constants[1]
@@ -35,7 +35,7 @@ class SimpleBlowoutWakefield(AnalyticalField):
             # Precalculate offset.
             xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
-- 
2.43.0


From 26db19f151d2ae0ad1573eb87460fdb2e3f150bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:54 +0000
Subject: [PATCH 11/23] fix: update the tracked bunch when only the initial
 output is requested

With out_initial=True and n_out=None the bunch was left at its initial state.
---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index bf1647d..43bd0af 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -219,7 +219,7 @@ class TMElement():
         return l_step, track_steps, output_steps
 
     def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list):
-        if len(output_bunch_list) == 0:
+        if self.n_out is None:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, self.gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
-- 
2.43.0


From 1dd27c6e7e54db58e6aa000e7d7a9936d8863fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:00 +0000
Subject: [PATCH 12/23] fix: track the full element length when CSR is on

The number of steps was truncated, so that rounding errors in length/step
(e.g. length=0.03, n_out=7) dropped the last step.
---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 43bd0af..b44b310 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -206,7 +206,7 @@ class TMElement():
             frac_out = 0
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
-            n_csr = int(self.length / csr_track_step)
+            n_csr = int(round(self.length / csr_track_step))
             if self.n_out is not None:
                 frac_out = int(n_csr / self.n_out)
             l_step = csr_track_step
-- 
2.43.0


From fb2c71630d163168e6ac9998d19c6811bf228796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:00 +0000
Subject: [PATCH 13/23] fix: do not keep the reference energy of the first
 tracked bunch

An element without gamma_ref used the average energy of the first bunch also
for every bunch tracked afterwards.
---
 wake_t/beamline_elements/tm_elements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index b44b310..127d090 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -111,6 +111,7 @@ class TMElement():
         """
         # Convert bunch to ocelot units and reference frame
         bunch_mat, g_avg = self._get_beam_matrix_for_tracking(bunch)
+        gamma_ref_input = self.gamma_ref
         if self.gamma_ref is None:
             self.gamma_ref = g_avg
 
@@ -179,6 +180,7 @@ class TMElement():
             opmd_diag.increase_z_pos(self.length)
 
         # Finalize
+        self.gamma_ref = gamma_ref_input
         if show_progress_bar:
             tracking_time = time.time() - start_time
             print('Done ({} s).'.format(tracking_time))
-- 
2.43.0


From 3abe000a587952fdca6ac09a0f81f1b03559c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:00 +0000
Subject: [PATCH 14/23] fix: restore the number of threads when the tracking
 fails

---
 wake_t/tracking/tracker.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0a3600e..5ae1c35 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -151,7 +151,16 @@ class Tracker():
         # requested by Wake-T.
         num_threads_outside_waket = get_num_threads()
         set_num_threads(num_threads)
-
+        try:
+            return self._do_tracking()
+        finally:
+            # Reset the number of threads to the value outside of Wake-T.
+            # This should help avoiding Wake-T to affect the behavior of other
+            # applications that require a different number of threads.
+            set_num_threads(num_threads_outside_waket)
+
+    def _do_tracking(self) -> List[List[ParticleBunch]]:
+        """Do the tracking with the current number of threads."""
         # Initialize progress bar.
         progress_bar = get_progress_bar(
             description=self.section_name,
@@ -254,11 +263,6 @@ class Tracker():
         # Close progress bar.
         progress_bar.close()
 
-        # Reset the number of threads to the value outside of Wake-T.
-        # This should help avoiding Wake-T to affect the behavior of other
-        # applications that require a different number of threads.
-        set_num_threads(num_threads_outside_waket)
-
         return self.bunch_list
 
     def evolve_bunch(
-- 
2.43.0


From fdf9a9b72d62890d874fcdc9305f98eb20821a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:36 +0000
Subject: [PATCH 15/23] fix: do not skip bunches whose time step is longer than
 the tracking

A bunch with dt larger than t_final was never pushed (unless the diagnostics
pushed it) and stayed at the beginning of the element.
---
 wake_t/tracking/tracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 5ae1c35..e6583e7 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -186,6 +186,9 @@ class Tracker():
                 dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])
             else:
                 dt_objects[i] = dt
+            # Make sure that the first bunch push is not beyond `t_final`.
+            if i < len(self.bunches):
+                dt_objects[i] = min(dt_objects[i], self.t_final)
 
         # Start tracking loop.
         while True:
-- 
2.43.0


From 8fde106686d26137c3fe951a3b3a3ec9020b8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:44 +0000
Subject: [PATCH 16/23] fix: give the output bunches of magnets their own
 weights and all metadata

The returned bunches shared the weight array of the tracked bunch and lost its
tags, t_flight and z_injection.
---
 wake_t/beamline_elements/tm_elements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 127d090..4a995d8 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -1,6 +1,7 @@
 """ Contains the classes of all elements tracked using transfer matrices. """
 from typing import Optional, Union, List
 import time
+from copy import deepcopy
 
 import numpy as np
 import scipy.constants as ct
@@ -259,8 +260,12 @@ class TMElement():
             new_bunch_mat = np.dot(rot, new_bunch_mat)
         new_bunch_mat[0] += new_x_ref
         # create new bunch
-        new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
+        new_bunch = ParticleBunch(np.copy(old_bunch.w),
+                                  bunch_matrix=new_bunch_mat,
+                                  tags=deepcopy(old_bunch.tags),
                                   prop_distance=new_prop_dist,
+                                  t_flight=old_bunch.t_flight,
+                                  z_injection=old_bunch.z_injection,
                                   name=old_bunch.name,
                                   q_species=old_bunch.q_species,
                                   m_species=old_bunch.m_species)
-- 
2.43.0


From 744d0df96e391c6c8fc4816c974569de5288d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:42 +0000
Subject: [PATCH 17/23] fix: define dp alike when getting and setting the
 alternative matrix

get_alternative_6D_matrix divided by the reference momentum whereas the
documented dp = (g-g_ref)/g_ref is what the setter expects, so that a
bunch rebuilt from its own matrix had a different energy spread.
---
 wake_t/particles/particle_bunch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 01d6f8e..8f8f4b8 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -223,8 +223,7 @@ class ParticleBunch():
         """
         g = np.sqrt(1 + self.px**2 + self.py**2 + self.pz**2)
         g_avg = np.average(g, weights=self.w)
-        b_avg = np.sqrt(1 - g_avg**(-2))
-        dp = (g-g_avg)/(g_avg*b_avg)
+        dp = (g-g_avg)/g_avg
         p_kin = np.sqrt(g**2 - 1)
         return np.array([self.x, self.px/p_kin, self.y, self.py/p_kin,
                          self.xi, dp]), g_avg
-- 
2.43.0


From 218c89b83ae42c1bb6ab5d58d85002e9e9ae60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:44 +0000
Subject: [PATCH 18/23] fix: longitudinal second-order terms of combined bends
 with k1 and k2

The integral f2y of the off-energy vertical terms lacked the factor
(2*ky)**2, which made the second-order map of an element with bending,
quadrupole and sextupole components non-symplectic.
---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 9fe4119..e14ccb8 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -133,7 +133,7 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     s2y = sy * cy
     c2y = np.cos(2 * ky * L).real
     fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
+    f2y = (L - s2y) / (4*ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
     J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
-- 
2.43.0


From 50809ca53c9420ba1a9a1f98599858a722b6cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:04 +0000
Subject: [PATCH 19/23] fix: T566 of bends with quadrupole or sextupole
 components

J3 has to be the integral of dx**3 along the element. The expression used
was not, so that tracking through an element in two parts or in one gave
different results and the k1, k2 -> 0 limit diverged.
---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index e14ccb8..46a1288 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -136,10 +136,8 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     f2y = (L - s2y) / (4*ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
-    J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
+    J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
           (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
-    # J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx ) / (
-    #        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
     Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
     Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-- 
2.43.0


From 390ba294a6d67e8189abb176c147867aa92b1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:04 +0000
Subject: [PATCH 20/23] fix: start the numerical fields at t=0 in every
 tracking

A field that had been used in a previous tracking was evolved instead of
initialized, so that tracking again through the same element started at the
end of the previous tracking.
---
 wake_t/tracking/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index e6583e7..0709448 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -168,8 +168,10 @@ class Tracker():
             disable=not self.show_progress_bar,
         )
 
-        # Calculate fields at t=0.
+        # Calculate fields at t=0. The fields have to be initialized again if
+        # they were already used in a previous tracking.
         for field in self.num_fields:
+            field.initialized = False
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-- 
2.43.0


From 1fca502c3c42c0314f0eb36477c8c8711e993705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:04 +0000
Subject: [PATCH 21/23] fix: reject changes of the laser grid also if it has
 not been evolved

The check was skipped for pulses that were initialized but not evolved, and
when only the grid of the plasma changed.
---
 wake_t/physics_models/laser/laser_pulse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index f5f422d..f66b54a 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -125,14 +125,15 @@ class LaserPulse():
             'use_phase': use_phase
         }
         # Check if laser pulse has already been initialized.
-        if self.n_steps > 0:
+        if self.a_env is not None:
             # Check that grid parameters have not changed.
             if (
                 solver_params['zmin'] != self.solver_params['zmin'] or
                 solver_params['zmax'] != self.solver_params['zmax'] or
                 solver_params['rmax'] != self.solver_params['rmax'] or
                 solver_params['nz'] != self.solver_params['nz'] or
-                solver_params['nr'] != self.solver_params['nr']
+                solver_params['nr'] != self.solver_params['nr'] or
+                self.a_env.shape != (nz, nr)
             ):
                 raise ValueError(
                     'Laser envelope grid parameters cannot be changed once '
-- 
2.43.0


From c5923f32b37955fa762187add3ce0d6f4cc0a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:09 +0000
Subject: [PATCH 22/23] fix: CSR position of elements that appear several times
 in a beamline

The position along the reference trajectory (and the CSR step) were those of
the first occurrence of the element, so the kicks of later passes through
the same element were calculated at the wrong place.
---
 .../physics_models/collective_effects/csr.py  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 2a5869d..5dfd8b2 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -37,7 +37,7 @@ class CSRCalculator():
 
     def get_csr_step(self, element):
         """Return the CSR step size used in the specified lattice element."""
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         return ds_csr
 
@@ -79,14 +79,12 @@ class CSRCalculator():
             element.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
 
         # Get current position along trajectory.
         s_current = 0
-        for el in self._lattice_elements:
-            if el is element:
-                break
+        for el in self._lattice_elements[:el_idx]:
             s_current += el.length
         s_current += element_pos
 
@@ -128,6 +126,16 @@ class CSRCalculator():
         delta_p = dE * 1e-9 / pc_ref
         bunch_matrix[5] += delta_p
 
+    def _get_element_index(self, element):
+        """
+        Return the index of the element in the list of lattice elements. If
+        the same element appears several times in the beamline, this is the
+        index of its last (i.e., current) occurrence.
+
+        """
+        n_elements = len(self._lattice_elements)
+        return n_elements - 1 - self._lattice_elements[::-1].index(element)
+
     def _set_element_steps(self, element):
         """
         Calculate and store the csr and trajectory step size for the
@@ -156,7 +164,7 @@ class CSRCalculator():
         M. Dohlus.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         n_steps = int(np.ceil(element.length / ds_traj))
         ds_traj = element.length / n_steps
-- 
2.43.0


From 9c3c1a8c631d9cf3f4622d24513f47db24d9b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:09 +0000
Subject: [PATCH 23/23] fix: CSR kick independent of the sign of the charge

The kick was proportional to the signed bunch charge, so that electron
bunches gained energy by emitting coherent synchrotron radiation.
---
 wake_t/physics_models/collective_effects/csr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 5dfd8b2..4a86605 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -88,9 +88,12 @@ class CSRCalculator():
             s_current += el.length
         s_current += element_pos
 
-        # Get line charge profile of bunch as a histogram.
+        # Get line charge profile of bunch as a histogram. The energy change
+        # of a particle is proportional to the product of its charge and that
+        # of the bunch, so it does not depend on the sign of the charge.
         z = -bunch_matrix[4]
-        bunch_hist, bin_edges = np.histogram(z, self._n_bins, weights=bunch_q)
+        bunch_hist, bin_edges = np.histogram(
+            z, self._n_bins, weights=np.abs(bunch_q))
 
         # Make profile smooth (important to prevent instabilities) using
         # a Gaussian KDE. This method might be changed/optimized.
-- 
2.43.0

