From b491e9cad58fd75b4d3a15ee2b865b02f7457ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 01/38] fix: accumulate nodal forces of all bodies that share a
 grid

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..604c82e 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -493,7 +493,7 @@ class USLSolver(BaseSolver):
             )
 
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(weighted_intern_force_stack + weighted_ext_force_stack)
             )
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..7c522e2 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -267,7 +267,7 @@ class USLAFLIP(USLSolver):
                 weighted_moment_stack
             )
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(total_intr_force)
             )
-- 
2.43.0


From b706a7e96f4e9fde07ef9701844ac4612671f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 02/38] fix: keep the volume array one-dimensional for a single
 material point

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 604c82e..6e1c921 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -714,7 +714,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 7c522e2..1399c5e 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -507,9 +507,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From 2d5a2bc01f65c17fc5ac95d6d7f35082aafab63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 03/38] fix: USL velocity gradient is L_ij = -v_i grad_j, not
 its transpose

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 6e1c921..e6f1d26 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -670,7 +670,7 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ijk", -intr_vels_nt_3d, intr_cache.shape_grads
             )
 
   
-- 
2.43.0


From b382d1c26c7022f1738c54245a71774c9bf3aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 04/38] fix: AFLIP reads and writes the affine state of its own
 coupling (s_idx)

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 1399c5e..5ebd965 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -311,7 +311,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -540,7 +540,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 905ba37167c90957fd5b44dc5bd8dd9bbb85fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 05/38] fix: APIC update (use_mls_update=False) crashed and had
 the wrong sign of the affine matrix

---
 hydraxmpm/solvers/usl_asflip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 5ebd965..ffc6bb6 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -409,7 +409,8 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                # compression positive
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -444,7 +445,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From 78d21a70c4bbf4019279a96dcb3462764c7532a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 06/38] fix: AFLIP dynamic alpha uses the configured support
 range

---
 hydraxmpm/solvers/usl_asflip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index ffc6bb6..c41620b 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -472,7 +472,12 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min)
+                    / (self.alpha_support_max - self.alpha_support_min),
+                    0.0,
+                    1.0,
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From bb7e7c91f4d2835368dbc714a86c52c267736fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 07/38] fix: Gravity on material points crashed (self.p_idx
 does not exist)

---
 hydraxmpm/forces/gravity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From 8224452c9291a9e006f2e2105ffe7431ac3eee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 08/38] fix: plane strain shear reset keeps F_zz = 1 (det F
 stays the volume ratio)

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..6269cee 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -42,7 +42,7 @@ class ConstitutiveLaw(eqx.Module):
             if dim == 2:
 
                 scale = jnp.sqrt(J)
-                return jnp.diag(jnp.array([scale, scale, 0.0]))
+                return jnp.diag(jnp.array([scale, scale, 1.0]))
             else:
                 # 3D cbar element-wise cube root
                 scale = jnp.cbrt(J)
-- 
2.43.0


From 71ae0d9eed963440ef87fc1392021247cf6198d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 09/38] fix: the stored deformation gradient accumulates the
 whole history (USL ignored it, the shear reset overwrote it)

---
 hydraxmpm/constitutive_laws/constitutive_law.py |  8 ++------
 hydraxmpm/solvers/usl.py                        | 10 +++++++++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 6269cee..d942829 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -51,12 +51,8 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
+        # the stored (accumulated) deformation gradient is history and is left alone
+        new_mp = eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
 
 
         return new_mp
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index e6f1d26..463246e 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -710,6 +710,13 @@ class USLSolver(BaseSolver):
             F_inc = I - p_L * dt
             p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)
 
+            if mp_state.F_store_stack is not None:
+                p_F_store_next = jnp.einsum(
+                    "ijk,ikl->ijl", F_inc, mp_state.F_store_stack
+                )
+            else:
+                p_F_store_next = None
+
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
@@ -722,9 +729,10 @@ class USLSolver(BaseSolver):
                     s.volume_stack,
                     s.F_stack,
                     s.L_stack,
+                    s.F_store_stack,
                 ),
                 mp_state,
-                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L),
+                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L, p_F_store_next),
             )
             mp_states[c.p_idx] = mp_state
 
-- 
2.43.0


From f9bf629561c8c26d2a3daf9bb84024449ee3399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 10/38] fix: gather_from_grid crashed (the interaction cache
 has no window_size)

---
 hydraxmpm/shapefunctions/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index ee63ae5..d7e2ee8 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -329,7 +329,7 @@ class ShapeFunctionMapping(eqx.Module):
 
         # accumulate (gather)
         particle_accum = jnp.zeros(
-            (point_ids.shape[0] // cache.window_size, flat_data.shape[1])
+            (point_ids.shape[0] // self.window_size, flat_data.shape[1])
         )
         particle_accum = particle_accum.at[point_ids].add(flat_data)
 
-- 
2.43.0


From 88bafc6efb34aeceff5fa879b4267b8a5ff6450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 11/38] fix: USL with SDF objects crashed for a single material
 point

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 463246e..9a5445b 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -616,7 +616,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists
                         for s in range(num_sdfs)
                     ]
                 )
-- 
2.43.0


From 9f8f2ebb0baee9d38e6d0beb65b385e4473004f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 12/38] fix: a 3D HollowCylinderSDF is bounded by its height
 (it extended to y=-inf and stopped at y=0)

---
 hydraxmpm/sdf/sdfcollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..3de28f7 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -170,7 +170,8 @@ class HollowCylinderSDF(SDFObjectBase):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
             r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            # Height bounds along the Y axis
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From c3480f7fc1b25c245210739c0fce038147342491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 13/38] fix: NewtonFluid.create_state passed the pressure
 positionally (TypeError)

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 439a17e..c6dbf11 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -81,8 +81,8 @@ class NewtonFluid(ConstitutiveLaw):
         density_initial_stack = material_points.mass_stack/ material_points.volume0_stack
         
         return self.create_state_from_density(
-            material_points.pressure_stack,
-            density_stack=density_initial_stack
+            density_stack=density_initial_stack,
+            pressure_stack=material_points.pressure_stack,
         )
  
 
-- 
2.43.0


From 8d19adc2b8a1c8ad5b5063907b1cbacb416b52ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 14/38] fix: the Newtonian pressure had the wrong sign
 (compressed fluid pulled instead of pushing)

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index c6dbf11..5b75eb7 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -119,8 +119,8 @@ class NewtonFluid(ConstitutiveLaw):
         p = jnp.maximum(p, 0.0) 
 
         # Cauchy stress calculation
-        # sigma = -pI + 2*mu*dev(D)
-        stress = -p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
+        # sigma = pI + 2*mu*dev(D), compression positive like L and the internal forces
+        stress = p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
 
 
         return stress
-- 
2.43.0


From c86888d41d5d581bac498ab6cf549b79baa56664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 15/38] fix: mu(I) shear stress was half of mu(I) p

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..80e2688 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,8 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            # s = 2 eta dev(D), so that sqrt(J2) = eta * dot_gamma = mu(I) p
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From 80dfb30ade0e8dc15ea714d24d9b6f0ecd1a330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 16/38] fix: DruckerPrager.create_state dropped the initial
 deviatoric stress

---
 hydraxmpm/constitutive_laws/druckerprager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..5b2047f 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -80,7 +80,8 @@ class DruckerPrager(ConstitutiveLaw):
         p_0_stack = jax.vmap(get_pressure)(stress_stack)
         
         return DruckerPragerState(
-            eps_e_stack=jnp.zeros((num_points, 3, 3)),
+            # the initial deviatoric stress is elastic
+            eps_e_stack=get_dev_stress(stress_stack, p_0_stack) / (2.0 * self.G),
             eps_p_acc_stack=jnp.zeros(num_points),
             p_0_stack=p_0_stack,
         )
-- 
2.43.0


From b595aa943a6eb0a26cdaec3b9c92f8b96861572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 17/38] fix: Drucker-Prager rotated the elastic strain against
 the spin of the body (L is compression positive)

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 5b2047f..d32a8cf 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -128,7 +128,7 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        W = get_spin_tensor(-L)  # L is compression positive
         deps = D * dt
 
         # objective rate correction (Jaumann)
-- 
2.43.0


From 2ebdbbd706dc1fa33bfb483402ee8a35213985f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 18/38] fix: Drucker-Prager cone return moved the pressure away
 from the yield surface

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index d32a8cf..b978f19 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -160,7 +160,7 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
-- 
2.43.0


From e9dd5fff8a9afd8166583b35cb951652df9ada51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 19/38] fix: Drucker-Prager apex return softened the
 accumulated plastic strain (sign of the dilation)

---
 hydraxmpm/constitutive_laws/druckerprager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index b978f19..cbe4803 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -185,10 +185,10 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From fb2d12b6d1440a2b5e5064b4968e7c7a05f75128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 20/38] fix: DruckerPrager.get_dt_crit crashed (material points
 have no rho_stack)

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index cbe4803..2b81b2c 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -209,7 +209,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From 6c2c4c7e24700dda39b8a4714581b7cfbc860a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 21/38] fix: ModifiedCamClay rotated the stress against the
 spin of the body (L is compression positive)

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..c21ae4c 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -385,7 +385,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        W = get_spin_tensor(-L) # skew-symmetric part (L is compression positive)
 
 
         deps_next = D * dt
-- 
2.43.0


From 1bf40477506f4f728570df940014a04991b770ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 22/38] fix: ModifiedCamClay.create_state_from_ocr moved every
 shear stress onto the yield surface

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index c21ae4c..4fb8cac 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = jnp.abs(q_p_inp_stack - q_p_ys_stack)
+            yf_check = q_p_inp_stack - q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0


From 80d82b9e08e024ce04ec89e2f6fb91b028313dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 23/38] fix: ModifiedCamClay states from stress or density had
 no reference stress (plastic update crashed)

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 4fb8cac..926b839 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -285,7 +285,12 @@ class ModifiedCamClay(ConstitutiveLaw):
         density_stack = self.rho_p / specific_volume_stack
 
         eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
-        return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e),density_stack
+        stress_ref_stack = reconstruct_stress_from_triaxial(
+            p_stack=p_stack, q_stack=q_stack
+        )
+        return ModifiedCamClayState(
+            p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e
+        ), density_stack
 
 
     def create_state_from_density(
@@ -327,7 +332,12 @@ class ModifiedCamClay(ConstitutiveLaw):
             eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
             
             # Return same specific volume back confirms it was used
-            return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e), specific_volume_stack
+            stress_ref_stack = reconstruct_stress_from_triaxial(
+                p_stack=p_stack, q_stack=jnp.zeros_like(p_stack)
+            )
+            return ModifiedCamClayState(
+                p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e
+            ), specific_volume_stack
 
     def create_state(
         self,
-- 
2.43.0


From 939b78fa700f0d2de6a1f97bd727b6d5c0912448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 24/38] fix: ModifiedCamClay.create_state crashed (arguments of
 jnp.full)

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 926b839..8d0afa2 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -347,7 +347,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
         mcc_state,*_ = self.create_state_from_ocr(
             p_stack=mp_state.pressure_stack,
-            ocr_stack =jnp.full((mp_state.position_stack.shape[0], 1.0))
+            ocr_stack=jnp.ones(mp_state.position_stack.shape[0])
         )
 
         return mcc_state
-- 
2.43.0


From 8e301f61db8e6c57698ff53e5a3d3f4f9243c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 25/38] fix: get_dev_strain_stack called itself
 (RecursionError)

---
 hydraxmpm/utils/math_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 8ac1291..4d6db7d 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -285,8 +285,8 @@ def get_hencky_strain_stack(F_stack):
 
 
 def get_dev_strain_stack(strain_stack):
-    """Get strain rate tensor from a stack of velocity gradients."""
-    return get_dev_strain_stack(strain_stack)
+    """Get deviatoric strain tensors from a stack of strain tensors."""
+    return get_dev_strain(strain_stack)
 
 def get_strain_rate_tensor_stack(L_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
-- 
2.43.0


From 1a406ac6669653d97922fc9281563b8d61c45083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 26/38] fix: get_scalar_shear_strain crashed (get_dev_strain
 takes no dim)

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 4d6db7d..3555fcf 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -309,7 +309,7 @@ def get_scalar_shear_strain(
 ):
     """Get scalar shear strain gamma = sqrt(1/2 trace(e_dev @ e_dev.T))."""
     if dev_strain is None:
-        dev_strain = get_dev_strain(strain, volumetric_strain, dim)
+        dev_strain = get_dev_strain(strain, volumetric_strain)
 
     return jnp.sqrt(0.5 * jnp.trace(dev_strain @ dev_strain.T))
 
-- 
2.43.0


From bf329e835fda1928546a3dcfc1bcf14c9a964ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 27/38] fix: void ratio from bulk density returned the specific
 volume (volume fraction too small)

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 3555fcf..e59be0e 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -519,7 +519,7 @@ def get_phi_from_L(L, phi_prev, dt):
 
 def get_e_from_bulk_density(absolute_density, bulk_density):
     """Get void ratio from absolute and bulk density."""
-    return absolute_density / bulk_density
+    return absolute_density / bulk_density - 1.0
 
 
 def get_phi_from_bulk_density(absolute_density, bulk_density):
-- 
2.43.0


From 2ec5c805f8e60b76af54192141decf0ee3db5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 28/38] fix: default particle volume ignored points_per_cell
 and used the cell area in 3D

---
 hydraxmpm/material_points/material_points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 95e5338..b1da3a1 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -200,8 +200,8 @@ class MaterialPointState(BaseMaterialPointState):
         # Assumes uniform distribution based on cell size and points per cell.
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
-            points_per_cell = kwargs.get("ppc", 4.0)
-            default_volume = (cell_size**2) / points_per_cell
+            points_per_cell = kwargs.get("ppc", kwargs.get("points_per_cell", 4.0))
+            default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
         volume0_stack = volume0_stack if volume0_stack is not None else volume_stack
-- 
2.43.0


From 4441f8458d8644ba0398c658465dff81e5967f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 29/38] fix: SimBuilder.set_solver indexed grids and laws per
 coupling, the solver by their global index

---
 hydraxmpm/common/builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..59a2208 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -319,13 +319,9 @@ class SimBuilder:
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
-
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
-        )
+        # couplings refer to grids and laws by their global indices
+        grid_domains = tuple(self.grid_domains)
+        laws = tuple(self.law_logics)
 
         if scheme.lower() == "usl":
             solver = USLSolver(
-- 
2.43.0


From e2d4bc5536c89b58ee8de89cc9a9a98472b3408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 30/38] fix: SimBuilder.add_sdf_collider ignored its friction
 argument (always 1)

---
 hydraxmpm/common/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 59a2208..98b80b2 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -420,7 +420,7 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
         """Convenience method for adding objects."""
@@ -436,6 +436,7 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
-- 
2.43.0


From 79f17adfe61c63cb8dd42c0667134d8edd4ac93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 31/38] fix: SimBuilder.add_sdf_collider registered no force
 state (later forces read the wrong state)

---
 hydraxmpm/common/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 98b80b2..0bcbab1 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -440,6 +440,7 @@ class SimBuilder:
         )
 
         f_idx = self.force_logics.add(sdf_collider)
+        self.force_states.append(None)  # Stateless force
 
         return f_idx
 
-- 
2.43.0


From 0514f5b61c20b23c58ab7d939c9ca182abb096da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 32/38] fix: ElementTestDriver ignored its is_F_linear_approx
 setting

---
 hydraxmpm/element_tests/driver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index ac1703d..a220cee 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -12,6 +12,8 @@ class ElementTestDriver(eqx.Module):
       def step(self, mp_state, law_state, L_input, dt, is_F_linear_approx=None):
 
 
+            if is_F_linear_approx is None:
+                is_F_linear_approx = self.is_F_linear_approx
 
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
-- 
2.43.0


From 6a71a1785022ffb96813d81a4fbdf112fa81ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 33/38] fix: GridDomain.create dropped the last node of extents
 that are multiples of the cell size up to rounding

---
 hydraxmpm/grid/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 248473a..eb65c66 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -62,7 +62,8 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        grid_size = tuple(int(s + 1) for s in raw_size)
+        # tolerance: extents that are multiples of the cell size up to rounding keep their last node
+        grid_size = tuple(int(s + 1 + 1e-6) for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From 2c96aadd489124bc201062fdc57221ac3abf0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:18 +0000
Subject: [PATCH 34/38] fix: TriaxialTest.axial_strain_stack did not match the
 snapshots of run (scalar rates, strides, static start)

---
 hydraxmpm/element_tests/triaxial_test.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index 47f49d7..6b5f2fd 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -24,16 +24,19 @@ class TriaxialTest(eqx.Module):
 
     @property
     def axial_strain_stack(self):
-        # Handle scalar vs array case for strain calculation
-        if hasattr(self.dt, "shape") and self.dt.shape:
-            # Array case: Cumulative sum
-            incr_strain = self.axial_rate * self.dt
-            return jnp.cumsum(incr_strain)[:: self.stride]
-        else:
-            # Scalar case (legacy)
-            return jnp.linspace(
-                0, self.axial_rate * self.dt * self.num_steps, self.num_steps
-            )[:: self.stride]
+        """Axial strain of each snapshot returned by `run`."""
+        num_steps = (
+            len(self.axial_rate)
+            if (hasattr(self.axial_rate, "ndim") and self.axial_rate.ndim > 0)
+            else self.num_steps
+        )
+        # strain after every step: snapshots are taken at the end of each stride
+        steps = jnp.arange(num_steps)
+        rate_stack = jnp.broadcast_to(jnp.asarray(self.axial_rate), (num_steps,))
+        incr_strain = rate_stack * self.dt
+        if self.start_static:
+            incr_strain = jnp.where(steps == 0, 0.0, incr_strain)
+        return jnp.cumsum(incr_strain)[self.stride - 1 :: self.stride]
 
     def run(self, mp_init, law_init):
 
-- 
2.43.0


From 181e5e6e0e121955beb46c2b89837dd2c469e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 35/38] fix: SimBuilder.set_solver placed the solver states of
 a subset of couplings at the wrong indices

---
 hydraxmpm/common/builder.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 0bcbab1..d36f3c2 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -343,16 +343,15 @@ class SimBuilder:
             )
 
         # Here we assume that each coupling maps
-        # to one solver state
+        # to one solver state (couplings refer to it by its global index)
+        while len(self.solver_states) < len(self.couplings):
+            self.solver_states.add(None)
+
         for coupling in couplings:
             mp_state = self.particle_states[coupling.p_idx]
 
-            if isinstance(mp_state, RigidMaterialPointState):
-                solver_state = None
-            else:
-                solver_state = solver.create_state(mp_state)
-
-            self.solver_states.add(solver_state)
+            if not isinstance(mp_state, RigidMaterialPointState):
+                self.solver_states[coupling.s_idx] = solver.create_state(mp_state)
 
         s_idx = self.solver_logics.add(solver)
         return s_idx
-- 
2.43.0


From 526b443812bd0401d8b42b9d8741204127bd88bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:07 +0000
Subject: [PATCH 36/38] fix: regular particle sampling did not scale the
 offsets inside a cell by the cell size

---
 hydraxmpm/utils/generate_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 351621b..fab6bce 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -74,7 +74,7 @@ def generate_particles_in_sdf(
         # offsets has shape  (1, N_offsets, dim)
         # gives shifted origins and we reshape (N_cells * N_offsets, dim)
         candidate_point_stack = (
-            grid_origins_flat[:, None, :] + offsets[None, :, :]
+            grid_origins_flat[:, None, :] + offsets[None, :, :] * cell_size
         ).reshape(-1, dim)
 
     dists = sdf_obj.get_signed_distance_stack(sdf_state, candidate_point_stack)
-- 
2.43.0


From 398349ac1e708be2c52048b5a8812b0d7e6471a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:43 +0000
Subject: [PATCH 37/38] Revert "fix: TriaxialTest.axial_strain_stack did not
 match the snapshots of run (scalar rates, strides, static start)"

This reverts commit 2c96aadd489124bc201062fdc57221ac3abf0f5a.
---
 hydraxmpm/element_tests/triaxial_test.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index 6b5f2fd..47f49d7 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -24,19 +24,16 @@ class TriaxialTest(eqx.Module):
 
     @property
     def axial_strain_stack(self):
-        """Axial strain of each snapshot returned by `run`."""
-        num_steps = (
-            len(self.axial_rate)
-            if (hasattr(self.axial_rate, "ndim") and self.axial_rate.ndim > 0)
-            else self.num_steps
-        )
-        # strain after every step: snapshots are taken at the end of each stride
-        steps = jnp.arange(num_steps)
-        rate_stack = jnp.broadcast_to(jnp.asarray(self.axial_rate), (num_steps,))
-        incr_strain = rate_stack * self.dt
-        if self.start_static:
-            incr_strain = jnp.where(steps == 0, 0.0, incr_strain)
-        return jnp.cumsum(incr_strain)[self.stride - 1 :: self.stride]
+        # Handle scalar vs array case for strain calculation
+        if hasattr(self.dt, "shape") and self.dt.shape:
+            # Array case: Cumulative sum
+            incr_strain = self.axial_rate * self.dt
+            return jnp.cumsum(incr_strain)[:: self.stride]
+        else:
+            # Scalar case (legacy)
+            return jnp.linspace(
+                0, self.axial_rate * self.dt * self.num_steps, self.num_steps
+            )[:: self.stride]
 
     def run(self, mp_init, law_init):
 
-- 
2.43.0


From 89d8319c1832a30dd4f06f8567c9343cf5bdbbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:43 +0000
Subject: [PATCH 38/38] Revert "fix: ElementTestDriver ignored its
 is_F_linear_approx setting"

This reverts commit 0514f5b61c20b23c58ab7d939c9ca182abb096da.
---
 hydraxmpm/element_tests/driver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index a220cee..ac1703d 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -12,8 +12,6 @@ class ElementTestDriver(eqx.Module):
       def step(self, mp_state, law_state, L_input, dt, is_F_linear_approx=None):
 
 
-            if is_F_linear_approx is None:
-                is_F_linear_approx = self.is_F_linear_approx
 
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
-- 
2.43.0

