From de835d1c80444b24a41411526197a9e372c14f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:06 +0000
Subject: [PATCH 1/7] fix: use nodal shape functions for serendipity elements
 HEX20 and QUAD8

---
 jax_am/fem/basis.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/basis.py b/jax_am/fem/basis.py
index e2de6b3..0d4a806 100644
--- a/jax_am/fem/basis.py
+++ b/jax_am/fem/basis.py
@@ -101,6 +101,20 @@ def reorder_inds(inds, re_order):
     return new_inds
 
 
+def tabulate_nodal_basis(element_family, basix_ele, degree, points):
+    """Tabulate nodal shape functions (and first derivatives) in the basix ordering.
+    The degrees of freedom of the basix serendipity family on edges are integral moments rather than
+    point evaluations, so that its basis is transformed to be nodal at vertices and edge midpoints.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        nodes = basix.create_element(basix.ElementFamily.P, basix_ele, degree).points[:element.dim]
+        vals_at_nodes = element.tabulate(0, nodes)[0, :, :, 0]
+        vals_and_grads = onp.einsum('dqjc,jk->dqkc', vals_and_grads, onp.linalg.inv(vals_at_nodes))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type):
     """TODO: Add comments
 
@@ -115,8 +129,7 @@ def get_shape_vals_and_grads(ele_type):
     """
     element_family, basix_ele, basix_face_ele, gauss_order, degree, re_order = get_elements(ele_type)
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.debug(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -176,8 +189,7 @@ def get_face_shape_vals_and_grads(ele_type):
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From fa8c3e48f8f8cc14c322dc66d95294bd8a43917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:42 +0000
Subject: [PATCH 2/7] fix: return the PETSc matrix of the Lagrange multiplier
 system and store it row-wise

---
 jax_am/fem/solver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 612c069..7c83650 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -548,7 +548,7 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
     V = onp.hstack((problem.V, V_d_sym, V_p_sym))
 
     logger.debug(f"Aug - Creating sparse matrix with scipy...")
-    A_sp_scipy_aug = scipy.sparse.csc_array((V, (I, J)),
+    A_sp_scipy_aug = scipy.sparse.csr_array((V, (I, J)),
                                             shape=(group_index, group_index))
     # logger.info(f"Aug - Creating sparse matrix from scipy using JAX BCOO...")
     A_sp_aug = BCOO.from_scipy_sparse(A_sp_scipy_aug).sort_indices()
@@ -564,10 +564,10 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
 
     if use_petsc:
 
-        A = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
-                                  csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.data))
+        A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
+                                      csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.data))
 
         # A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
         #                               csr=(A_sp_scipy_aug.indptr,
-- 
2.43.0


From 5a173ca2b4834406e30217c6391f1fe792ba674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:03 +0000
Subject: [PATCH 3/7] fix: build the sensitivity filter for designs with fewer
 than 20 cells

---
 jax_am/fem/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/mma.py b/jax_am/fem/mma.py
index 2b6782c..79a7ab1 100644
--- a/jax_am/fem/mma.py
+++ b/jax_am/fem/mma.py
@@ -39,8 +39,8 @@ def compute_filter_kd_tree(problem):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], list(range(1, num_nbs + 1)))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 444afd80502ff83ceaa5c33d3a5f02eac6487ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:50 +0000
Subject: [PATCH 4/7] fix: return the z face velocity from
 get_face_vel_component

---
 jax_am/cfd/cfd_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 3c97e60..755f95c 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -133,10 +133,10 @@ def get_face_vel_component(vel, dX, axis=0, BCs=None):
 
     if axis == 2:
         w = np.concatenate(
-            (vel_gc[4], vel, vel_gc),
+            (vel_gc[4], vel, vel_gc[5]),
             axis=2)
         w_f = (w[:, :, 1:] + w[:, :, :-1]) / 2
-        return v_f
+        return w_f
 
 
 class AM_3d():
-- 
2.43.0


From f0f630f49a042abfc837e6c097a8c52ca40b3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:50 +0000
Subject: [PATCH 5/7] fix: honour the boundary conditions given to cfd gradient

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 755f95c..5fea4eb 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -82,7 +82,7 @@ def div(f, vel_f, dX, theta=0.125, BCs=None):
 def gradient(f, dX, BCs=None):
     if BCs == None:
         BCs = [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]]
-    f_gc = get_GC_values(f, [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]], dX)
+    f_gc = get_GC_values(f, BCs, dX)
     return np.concatenate(((np.diff(f, axis=0, append=f_gc[1]) +
                             np.diff(f, axis=0, prepend=f_gc[0])) / dX[0] / 2.,
                            (np.diff(f, axis=1, append=f_gc[3]) +
-- 
2.43.0


From 8364345c663dd396786009d623b9aefb03015642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:50 +0000
Subject: [PATCH 6/7] fix: make the energy equation accept Dirichlet conditions

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 5fea4eb..2c7e71a 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -500,7 +500,7 @@ class energy_eqn():
             T0) / args['dt'] - args['rho'] * cp_fn(T0) * conv + Q
         mu_fn = lambda T: args['k'](T)
         self.step = poisson(mesh=args['mesh'],
-                            nonlinear='True',
+                            nonlinear=True,
                             mu_fn=mu_fn,
                             source_fn=fn)
         self.bc_fn = None
-- 
2.43.0


From 772ad32452cb42b1059cd2b8ba58aecdcadfd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:40 +0000
Subject: [PATCH 7/7] fix: no body heat source (instead of a division by zero)
 once the laser is off

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 2c7e71a..00d89e8 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -225,7 +225,7 @@ class AM_3d():
             eta = self.args['eta']
             r = self.args['rb']
             d = self.args['phi'] * P / self.args['speed'] / self.args['rb']**2
-            Q_laser = 2 * P * eta / d / np.pi / r**2 * np.exp(-2 * (
+            Q_laser = 2 * P * eta / np.where(d > 0, d, 1.) / np.pi / r**2 * np.exp(-2 * (
                 (xc - xl)**2 + (yc - yl)**2) / r**2)
             Q_laser = Q_laser * ((zl - zc) <= d)
             return Q_laser
-- 
2.43.0

