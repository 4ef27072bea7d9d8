From 431ea9af2ac2b1aab8c4ab28bb8049ed577081eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 01/19] fix: honour jax_solver precond=False

The conditional was inside the lambda, so the preconditioner returned None
and the documented option {'jax_solver': {'precond': False}} raised TypeError.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c071986..176d44f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -66,7 +66,7 @@ def jax_solve(A, b, x0, precond):
     A_sp_scipy = scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize())
     A = BCOO.from_scipy_sparse(A_sp_scipy).sort_indices()
     jacobi = np.array(A_sp_scipy.diagonal())
-    pc = lambda x: x * (1. / jacobi) if precond else None
+    pc = (lambda x: x * (1. / jacobi)) if precond else None
     
     if issubclass(PETSc.ScalarType, np.complexfloating):
         logger.debug("JAX Solver - Using PETSc with complex number support")
-- 
2.43.0


From 51ba9e7d9e69df04b6aba07804ed4de3448a06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 02/19] fix: do not write the default linear solver into the
 caller's options

The default backend was inserted into the dict passed by the user (or into a
shared default argument), so a backend chosen later in that dict was ignored.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 176d44f..86f8d2d 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -261,7 +261,7 @@ def AMGX_solve(A, b, x0, cfg_path):
 def linear_solver(A, b, x0, linear_options):
     # If user does not specify any solver, set jax_solver as the default one.
     if len(linear_options.keys() & {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}) == 0:
-        linear_options['jax_solver'] = {}
+        linear_options = {**linear_options, 'jax_solver': {}}
 
     if 'jax_solver' in linear_options:
         precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
-- 
2.43.0


From 19e48bf71fa1c91b33f212d5b3e719ad01bcb7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 03/19] fix: keep the problem usable after differentiating
 through ad_wrapper

The adjoint called set_params with JAX tracers and left them in the problem,
so a later residual evaluation or solve raised UnexpectedTracerError.
---
 jax_fem/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 86f8d2d..897b280 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1415,6 +1415,9 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
     vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
     vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)
 
+    # Tracing constraint_fn left tracers in the problem; restore concrete values.
+    problem.set_params(params)
+
     return vjp_result
 
 
-- 
2.43.0


From 039ccf32a9d96e4e965ac64e9e7c8ed33e4b08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 04/19] fix: make Mesh.count_selected_faces work on JAX point
 arrays

Mesh stores JAX arrays; numpy.take on them dispatches to jax.numpy.take with
mode='raise', which is not supported, so every call raised.
---
 jax_fem/generate_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index bd564c8..f53a174 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -40,14 +40,14 @@ class Mesh():
         face_count : int
         """
         _, _, _, _, face_inds = get_face_shape_vals_and_grads(self.ele_type)
-        cell_points = onp.take(self.points, self.cells, axis=0)
-        cell_face_points = onp.take(cell_points, face_inds, axis=1)
+        cell_points = np.take(self.points, self.cells, axis=0)
+        cell_face_points = np.take(cell_points, face_inds, axis=1)
 
         vmap_location_fn = jax.vmap(location_fn)
 
         def on_boundary(cell_points):
             boundary_flag = vmap_location_fn(cell_points)
-            return onp.all(boundary_flag)
+            return np.all(boundary_flag)
 
         vvmap_on_boundary = jax.vmap(jax.vmap(on_boundary))
         boundary_flags = vvmap_on_boundary(cell_face_points)
-- 
2.43.0


From f1477e2519363b49fb9cf982aba6572804f966c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 05/19] fix: use jax.default_backend in walltime

jax.lib.xla_bridge was removed from JAX, so the decorator raised
AttributeError and lost the result of the timed function.
---
 jax_fem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index c9ce5c1..222e202 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -186,7 +186,7 @@ def walltime(txt_dir=None, filename=None):
             return_values = func(*list_args, **keyword_args)
             end_time = time.time()
             time_elapsed = end_time - start_time
-            platform = jax.lib.xla_bridge.get_backend().platform
+            platform = jax.default_backend()
             logger.info(
                 f"Time elapsed {time_elapsed} of function {func.__name__} "
                 f"on platform {platform}"
-- 
2.43.0


From fa7acdb9c4376ab38a1efb6aa7dafe0a249cf67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 06/19] fix: support line search with multipoint constraints

The line search evaluated the full residual on the reduced unknowns and raised
a shape error whenever P_mat was set.
---
 jax_fem/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 897b280..ee6ad35 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -430,7 +430,10 @@ def line_search(problem, dofs, inc):
     res_fn = apply_bc(res_fn, problem)
 
     def res_norm_fn(alpha):
-        res_vec = res_fn(dofs + alpha*inc)
+        if hasattr(problem, 'P_mat'):
+            res_vec = problem.P_mat.T @ res_fn(problem.P_mat @ (dofs + alpha*inc))
+        else:
+            res_vec = res_fn(dofs + alpha*inc)
         return np.linalg.norm(res_vec)
 
     # grad_res_norm_fn = jax.grad(res_norm_fn)
-- 
2.43.0


From 4ceb7a26ba0724c6b2d589c276d410627a19d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 07/19] fix: size the dynamic relaxation matrix for all
 variables

The matrix had the size of the first variable only, so dynamic relaxation
raised for every problem with more than one variable.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index ee6ad35..fb95579 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -879,7 +879,7 @@ def assembleCSR(problem, dofs):
     sol_list = problem.unflatten_fn_sol_list(dofs)
     problem.newton_update(sol_list)
     A_sp_scipy = scipy.sparse.csr_array((problem.V, (problem.I, problem.J)),
-        shape=(problem.fes[0].num_total_dofs, problem.fes[0].num_total_dofs))
+        shape=(problem.num_total_dofs_all_vars, problem.num_total_dofs_all_vars))
 
     for ind, fe in enumerate(problem.fes):
         for i in range(len(fe.node_inds_list)):
-- 
2.43.0


From ae80402669a6158ea637458adb0f1f1221462f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 08/19] fix: make QUAD8/HEX20 shape functions nodal

Basix defines the edge functions of serendipity elements by edge averages, so
the mid-edge shape functions were 1.5 at their own node and the corner ones
-0.25 there: mid-edge coordinates, Dirichlet values and saved solutions, all of
which are nodal values, were misread on any curved or quadratic field.
---
 jax_fem/basis.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jax_fem/basis.py b/jax_fem/basis.py
index a7b7b04..cd0efbd 100644
--- a/jax_fem/basis.py
+++ b/jax_fem/basis.py
@@ -138,6 +138,24 @@ def _normalize_quadrature_rule(rule):
     )
 
 
+def _tabulate_nodal(element_family, basix_ele, degree, points):
+    """Tabulate nodal shape function values and gradients (in basix ordering).
+
+    Basix defines the edge functions of (quadratic) serendipity elements by the mean value over the edge,
+    so they do not interpolate the mid-edge nodes. A change of basis gives the nodal shape functions.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        edges = basix.topology(basix_ele)[1]
+        nodes = onp.vstack([vertices] + [onp.mean(vertices[edge], axis=0, keepdims=True) for edge in edges])
+        nodal_vals = element.tabulate(0, nodes)[0, :, :, 0]
+        to_nodal = onp.linalg.inv(nodal_vals)
+        vals_and_grads = onp.einsum('dpik,ij->dpjk', vals_and_grads, to_nodal)
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=None):
     """Use `basix <https://github.com/FEniCS/basix>`_ to get shape function values and gradients for elements.
 
@@ -167,8 +185,7 @@ def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=No
 
     quad_points, weights = basix.make_quadrature(basix_ele, quadrature_order, rule=quadrature_rule)
 
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = _tabulate_nodal(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.info(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -241,8 +258,7 @@ def get_face_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_ord
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = _tabulate_nodal(element_family, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 34ff9c7fce04bacbb78aee5334e7d8b68abd82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 09/19] fix: treat numerically repeated eigenvalues as repeated
 in eigen_f derivative

eigh returns repeated eigenvalues that differ by round-off, so the exact
comparison with zero fell through to a difference quotient of round-off errors
(derivative wrong by tens of percent for non-linear functions).
---
 applications/phase_field_fracture/eigen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/applications/phase_field_fracture/eigen.py b/applications/phase_field_fracture/eigen.py
index 36a3ba3..3bd0958 100644
--- a/applications/phase_field_fracture/eigen.py
+++ b/applications/phase_field_fracture/eigen.py
@@ -57,9 +57,12 @@ def get_eigen_f_custom(fn):
 
         diff_evals = evals[:, None] - evals[None, :]
         diff_fvals = fvals[:, None] - fvals[None, :]
-        diff_grads = grads[:, None]
+        mean_grads = 0.5*(grads[:, None] + grads[None, :])
 
-        theta = np.where(diff_evals == 0., diff_grads, diff_fvals/diff_evals)
+        # For (nearly) repeated eigenvalues the difference quotient is dominated by round-off
+        # (or is 0/0), and the mean derivative is its accurate limit.
+        is_repeated = np.abs(diff_evals) <= 1e-8*np.max(np.abs(evals))
+        theta = np.where(is_repeated, mean_grads, diff_fvals/np.where(is_repeated, 1., diff_evals))
 
         tmp = G * theta[:, :, None, None, None, None]
         tmp1 = np.sum(tmp, axis=(0, 1))
-- 
2.43.0


From 0737397cff3c53b2de9cdd388041491d6c95543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 10/19] fix: correct every arc-length step, not only the
 predictor

The residual of the first iteration belongs to the converged start point, so the loop ended after
the linear predictor and the recorded continuation points were not in equilibrium.
---
 jax_fem/solver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index fb95579..0c1f40c 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -582,7 +582,11 @@ def arc_length_solver_disp_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u_
 
     tol = 1e-6
     res_val = 1.
-    while res_val > tol:
+    # The residual is measured before each update, and the first one belongs to the (already
+    # converged) start point: only from the second iteration on it measures the new point.
+    num_updates = 0
+    while res_val > tol or num_updates < 2:
+        num_updates += 1
         res_vec, A = newton_update_helper(u_vec)
         res_val = np.linalg.norm(res_vec)
         logger.debug(f"Arc length solver: res_val = {res_val}")
@@ -668,7 +672,11 @@ def arc_length_solver_force_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u
 
     tol = 1e-6
     res_val = 1.
-    while res_val > tol:
+    # The residual is measured before each update, and the first one belongs to the (already
+    # converged) start point: only from the second iteration on it measures the new point.
+    num_updates = 0
+    while res_val > tol or num_updates < 2:
+        num_updates += 1
         res_vec, A = newton_update_helper(u_vec)
         load_term = (1. - lamda) * q_aux_mapped
         res_val = np.linalg.norm(res_vec + load_term)
-- 
2.43.0


From 7173585f6703f7af2917b06a92480cb2b711309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 11/19] fix: save_sol accepts a file name in the current
 directory

---
 jax_fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 222e202..90bd0a9 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -40,7 +40,8 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From 515c628d0876b9faa1ba6dde122c7da2884c17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 12/19] fix: density filter uses all cells within its radius

It looked at exactly 20 nearest cells: designs with fewer cells failed, and on stretched or tetrahedral
meshes neighbours inside the radius were dropped.
---
 jax_fem/mma.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 29e15c6..70c1f4f 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -43,12 +43,11 @@ def compute_filter_kd_tree(fe):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
-        neighbors = np.take(flex_cell_centroids, ii, axis=0)
+        ii = kd_tree.query_ball_point(kd_tree.data[i], rmin)
+        dd = np.linalg.norm(kd_tree.data[ii] - kd_tree.data[i], axis=1)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
-        I += [i]*num_nbs
-        J += ii.tolist()
+        I += [i]*len(ii)
+        J += ii
         V += vals.tolist()
     H_sp = scipy.sparse.csc_array((V, (I, J)), shape=(flex_num_cells, flex_num_cells))
 
-- 
2.43.0


From 74caa7359d7ad9a03333dbc2b64660bfa6f83e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 13/19] fix: build the density filter from JAX mesh arrays

numpy.take on the JAX arrays held by Mesh raises NotImplementedError.
---
 jax_fem/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 70c1f4f..0aabd6c 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -28,7 +28,7 @@ def compute_filter_kd_tree(fe):
     """This function is created by Tianju. Not from the original code.
     We use k-d tree algorithm to compute the filter.
     """
-    cell_centroids = np.mean(np.take(fe.points, fe.cells, axis=0), axis=1)
+    cell_centroids = np.mean(np.asarray(fe.points)[np.asarray(fe.cells)], axis=1)
     flex_num_cells = len(fe.flex_inds)
     flex_cell_centroids = np.take(cell_centroids, fe.flex_inds, axis=0)
 
-- 
2.43.0


From 3d27c974d3588ce7d32d321703c69e9921a5df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 14/19] fix: quiet_element: reject deactivation also when as
 many cells are born as die (face map went stale)

---
 applications/quiet_element/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/quiet_element/example.py b/applications/quiet_element/example.py
index 9ff4481..2f3b5fe 100644
--- a/applications/quiet_element/example.py
+++ b/applications/quiet_element/example.py
@@ -171,7 +171,7 @@ def update_hash_map(active_cell_truth_tab_old, active_cell_truth_tab_new, cells_
     print(f"Updating hash map for external faces...")
     active_cell_truth_tab_old = onp.asarray(active_cell_truth_tab_old, dtype=bool)
     active_cell_truth_tab_new = onp.asarray(active_cell_truth_tab_new, dtype=bool)
-    assert onp.sum(active_cell_truth_tab_new) >= onp.sum(active_cell_truth_tab_old), "Number of new born cells must be non-negative!"
+    assert onp.all(active_cell_truth_tab_new | ~active_cell_truth_tab_old), "An active cell must not become quiet!"
     new_born_cell_inds = onp.argwhere(active_cell_truth_tab_old != active_cell_truth_tab_new).reshape(-1)
     external_faces = hash_map_for_faces(active_cell_truth_tab_new, cells_face, hash_map, inner_faces, all_faces, new_born_cell_inds)
     return external_faces
-- 
2.43.0


From 2bb75da01e11cfe3582cc059eccb2b47ecccd62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 15/19] fix: poisson_mpi assembly keeps the entries of a rank
 that owns no rows

---
 applications/parallel/poisson_mpi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/applications/parallel/poisson_mpi.py b/applications/parallel/poisson_mpi.py
index 6e13569..057a63d 100644
--- a/applications/parallel/poisson_mpi.py
+++ b/applications/parallel/poisson_mpi.py
@@ -144,9 +144,7 @@ def scatter_global_coo(
     ng, _ = mat.getSize()
     rstart, rend = mat.getOwnershipRange()
     nlocal = rend - rstart
-    if nlocal == 0:
-        if timers and rank == 0: timers["prep"] = timers.get("prep", 0.0) + (tw() - t0)
-        return
+    # A rank may own no rows and still hold cells: its entries all go to other ranks below.
     t4 = tw()
     own = (r >= rstart) & (r < rend)
     # Off-rows (need RCV, always in COO)
-- 
2.43.0


From 78f41e0a442c5f43504f6c64f384a0e5e913407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 16/19] fix: poisson_mpi keeps the matrix symmetric for CG when
 it applies boundary conditions

---
 applications/parallel/poisson_mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/parallel/poisson_mpi.py b/applications/parallel/poisson_mpi.py
index 057a63d..2d6dd06 100644
--- a/applications/parallel/poisson_mpi.py
+++ b/applications/parallel/poisson_mpi.py
@@ -320,7 +320,7 @@ def main():
         mat.assemblyEnd()
 
         if boundary_owned:
-            mat.zeroRows(_petsc_int(boundary_owned), diag=1.0)
+            mat.zeroRowsColumns(_petsc_int(boundary_owned), diag=1.0)  # CG needs a symmetric matrix
             b.setValues(
                 _petsc_int(boundary_owned),
                 np.zeros(len(boundary_owned), dtype=np.float64),
-- 
2.43.0


From 882771f976adabdb9408fa3bc4dde4b85ae5feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 17/19] fix: finite-difference dendrite uses the current
 gradient of eps**2 instead of the one frozen by jit

---
 applications/dendrite/explicit_fd/example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/dendrite/explicit_fd/example.py b/applications/dendrite/explicit_fd/example.py
index dab0136..d46c6a0 100644
--- a/applications/dendrite/explicit_fd/example.py
+++ b/applications/dendrite/explicit_fd/example.py
@@ -91,7 +91,7 @@ def simulation():
         return arr
 
     @partial(jax.jit, static_argnums=(0,1))
-    def phase_field(dx, dy, eps, eps_prime, p_x, p_y, p, T):    
+    def phase_field(dx, dy, eps, eps_prime, eps2_x, eps2_y, p_x, p_y, p, T):    
         part1, _ = grad(eps*eps_prime*p_y, dx, dy)
         _, part2 = grad(eps*eps_prime*p_x, dx, dy)
         part3 = eps2_x*p_x + eps2_y*p_y
@@ -150,7 +150,7 @@ def simulation():
         eps, eps_prime = get_eps(theta)
         eps2_x, eps2_y = grad(eps**2, hx, hy)
         
-        p_new = phase_field(hx, hy, eps, eps_prime, p_x, p_y, p, T) 
+        p_new = phase_field(hx, hy, eps, eps_prime, eps2_x, eps2_y, p_x, p_y, p, T) 
         p_new = zero_flux_BC(p_new)
         d_p = p_new - p
         
-- 
2.43.0


From d3c4d876334921323770837a77ca430124e4940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 18/19] fix: finite-difference dendrite accepts grids with nx
 != ny

---
 applications/dendrite/explicit_fd/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/dendrite/explicit_fd/example.py b/applications/dendrite/explicit_fd/example.py
index d46c6a0..9d07a2d 100644
--- a/applications/dendrite/explicit_fd/example.py
+++ b/applications/dendrite/explicit_fd/example.py
@@ -140,7 +140,7 @@ def simulation():
     eps2_y = np.zeros((nx,ny))
 
     # circle
-    i, j = onp.meshgrid(onp.arange(nx), onp.arange(ny))
+    i, j = onp.meshgrid(onp.arange(nx), onp.arange(ny), indexing='ij')
     mask =  ((i - nx/2.)**2 + (j - ny/2.)**2) < 20.
     p = p.at[mask].set(1.)
  
-- 
2.43.0


From cf473312709d3531072901db2654861c06aea8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 19/19] fix: nonlinear Poisson reaction term with more than one
 quadrature point per cell

---
 applications/parallel/poisson_gold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/parallel/poisson_gold.py b/applications/parallel/poisson_gold.py
index 7bdf908..21a1845 100644
--- a/applications/parallel/poisson_gold.py
+++ b/applications/parallel/poisson_gold.py
@@ -140,7 +140,7 @@ class NonlinearManufacturedPoisson(Problem):
             uq = uq[:, 0]
             nl = uq**3
             val_nl = jnp.sum(
-                nl[:, None, None] * N[:, :, None] * cell_JxW[:, None, None], axis=0
+                nl[:, None, :] * N[:, :, None] * cell_JxW[:, None, None], axis=0
             )
 
             xv, yv = x[:, 0], x[:, 1]
-- 
2.43.0

