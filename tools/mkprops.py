"""Writes properties.jsonl (kept in the repository so that edits stay reviewable)."""
import json, os
B, F, P, S, G, U, M = ('jax_fem/%s.py' % n for n in ('basis', 'fe', 'problem', 'solver', 'generate_mesh', 'utils', 'mma'))
props = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    props.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why, 'anchors': a})

prop('C01', 'Shape functions and quadrature are correct for every element type',
 "For every supported element type (QUAD4/8, TRI3/6, HEX8/20/27, TET4/10) the shape functions supplied for cells and for every local face are the nodal Lagrange or serendipity basis in the documented meshio/Abaqus node order: 1 at their own node, 0 at the others, with reference gradients that are their derivatives. "
 "The quadrature points lie in the cell (on the local face), and the weights integrate every polynomial up to the requested (or default) order exactly over the reference cell and over each face, for every quadrature rule that can be requested. "
 "Each local face lists exactly the corner nodes on that face, and its normal is the outward unit normal.",
 ['inputs', 'configurations'], "all nine element types x quadrature orders x quadrature rules x faces",
 "Tests solve one problem per element on one mesh (mostly HEX8) and compare against a reference with percent-level tolerance; wrong mid-node order, order defaulting or face tables on the other elements is never exercised.",
 [B], [('get_elements', B), ('re_order', B), ('get_shape_vals_and_grads', B), ('get_face_shape_vals_and_grads', B), ('reorder_inds', B)],
 ['get_shape_vals_and_grads', 'get_face_shape_vals_and_grads', 'FiniteElement.shape_vals/face_shape_vals/face_inds/face_normals'])

prop('C02', 'Cell integrals, gradients and quadrature-point values are geometrically exact',
 "On any valid mesh, including distorted and curved cells and any unit or position, the integration weights sum to the mesh volume and integrate polynomials exactly up to the order the quadrature allows, and the physical quadrature points are the images of the reference ones. "
 "Interpolating nodal values of an affine field (or of any field of the element's polynomial space) to quadrature points, and taking its gradient there, gives that field's values and gradients; all of it follows node coordinates that are passed explicitly instead of the stored ones.",
 ['inputs'], "all element types, random distorted/curved/rotated meshes, random polynomial fields, explicit node coordinates",
 "Tests use undistorted axis-aligned boxes, where transposed Jacobians or missing determinants cancel.",
 [F, P], [('get_shape_grads', F), ('get_physical_quad_points', F), ('convert_from_dof_to_quad', F), ('sol_to_grad', F), ('initialize_geometric_quantities', P)],
 ['FiniteElement.get_shape_grads', 'FiniteElement.get_physical_quad_points', 'convert_from_dof_to_quad', 'sol_to_grad', 'Problem.JxW', 'Problem.physical_quad_points'])

prop('C03', 'Boundary-face integrals, points and gradients belong to the selected faces',
 "For any set of selected cell faces on any valid mesh, the surface quadrature weights sum to the true area (length) of each face, surface quadrature points lie on that very face, and surface integrals of polynomials are exact, so the divergence theorem holds between cell and face integrals. "
 "Nodal fields converted to face quadrature points and shape gradients there equal the field and its gradient at those points, also for explicitly passed node coordinates.",
 ['inputs'], "all element types, random distorted/curved meshes, arbitrary face selections, polynomial fields",
 "Tests apply constant tractions on flat unit faces of a box; area scaling on sloped faces, face/point mismatch or per-face normals do not show there.",
 [F, P], [('get_face_shape_grads (Nanson)', F), ('get_physical_surface_quad_points', F), ('convert_from_dof_to_face_quad', F), ('initialize_geometric_quantities', P)],
 ['FiniteElement.get_face_shape_grads', 'get_physical_surface_quad_points', 'convert_from_dof_to_face_quad', 'Problem.nanson_scale'])

prop('C04', 'Boundary selection picks exactly the nodes and faces the user described',
 "The Dirichlet data of a problem contain exactly the nodes at which the location function is true, on the requested component, with the value function evaluated at that node; a surface set contains exactly the (cell, local face) pairs all of whose corner nodes satisfy the location function, and face counting agrees. "
 "Location functions may take the point or the point and node index; updating the Dirichlet data replaces the old data completely, an empty selection selects nothing, and when selections overlap the last one listed wins.",
 ['inputs', 'histories'], "random meshes, random location/value functions of either arity, several variables, update sequences",
 "Tests select a few planar faces of a box with one-argument functions and check only the resulting solution norm.",
 [F, P, G, S], [('Dirichlet_boundary_conditions', F), ('update_Dirichlet_boundary_conditions', F), ('get_boundary_conditions_inds', F), ('count_selected_faces', G), ('apply_bc_vec / assign_bc', S)],
 ['FiniteElement.node_inds_list/vec_inds_list/vals_list', 'Problem.boundary_inds_list', 'Mesh.count_selected_faces', 'solver results at constrained nodes'])

prop('C05', 'The residual is the Galerkin weak form, whatever the mesh and kernels',
 "For any mesh, element type, field and user-supplied maps (stress/flux, mass/source, surface, and universal kernels for cells and surfaces) with any per-quadrature-point internal variables, the computed residual equals the sum over all cells and selected faces of the exact quadrature of the weak form tested against each shape function. "
 "Every cell and selected face contributes exactly once, for every number of cells, and internal variables reach the cell, face and quadrature point they belong to.",
 ['inputs', 'programs'], "element types x cell counts (1..~100, around batch boundaries) x kernel combinations x internal variables x fields",
 "Tests check converged solutions of a few problems with one mesh each; a cell dropped at a batch boundary, swapped internal variables or an omitted term for a kernel combination is outside their reach.",
 [P], [('get_laplace_kernel', P), ('get_mass_kernel', P), ('get_surface_kernel', P), ('split_and_compute_cell', P), ('compute_face', P), ('compute_residual_vars_helper', P)],
 ['Problem.compute_residual', 'residual returned by Problem.newton_update'], [('internal_vars', 'per quadrature point data', P), ('internal_vars_surfaces', 'per face quadrature point data', P)])

prop('C06', 'The assembled tangent is the exact derivative of the residual',
 "After a tangent update at any field, the assembled sparse matrix equals the derivative of the residual at that field (cells plus surface terms, all variables), with every Dirichlet row replaced by the corresponding identity row; applying the Dirichlet conditions to the residual replaces exactly those entries by field minus (scaled) prescribed value. "
 "The residual delivered together with the tangent equals the residual computed on its own.",
 ['inputs', 'programs'], "random nonlinear, nonsymmetric, coupled kernels, fields, boundary sets, element types",
 "A wrong tangent still converges on the tested problems (more iterations), so solution checks cannot see it.",
 [P, S], [('compute_newton_vars', P), ('value_and_jacfwd', P), ('I, J, V triplets', P), ('get_A', S), ('_PetscTangentCache', S), ('apply_bc_vec', S)],
 ['get_A(problem)', 'Problem.newton_update', 'apply_bc_vec'])

prop('C07', 'Coupled multi-variable problems are composed consistently',
 "In a problem with several variables (possibly different element types, components and Dirichlet data on the same cells) degrees of freedom, residual entries, matrix rows and columns, Dirichlet data and returned fields all belong to the variable and node they are listed under. "
 "Variables that do not interact give the same fields as separate single-variable problems, and permuting the list of variables permutes the results.",
 ['programs', 'configurations'], "2-3 variables, mixed element orders and component counts, coupled and uncoupled kernels, variable permutations",
 "No stable test contains a multi-variable problem.",
 [P, S], [('offset / find_ind', P), ('unflatten_fn_dof', P), ('unflatten_fn_sol_list', P), ('apply_bc_vec', S), ('_PetscTangentCache rows', S)],
 ['solver', 'compute_residual', 'get_A'])

prop('C08', 'Results do not depend on numbering, position or orientation of the mesh',
 "Renumbering the nodes, reordering the cells, or rotating each cell's local node order in an orientation-preserving way leaves the solved physical field and the total residual unchanged up to the same renumbering. "
 "For isotropic problems, rigidly moving the mesh together with loads and boundary values moves the solution along, and uniform scaling of coordinates scales the solution as the equations dictate.",
 ['inputs'], "random permutations of nodes/cells/local orders and rigid motions/scalings on random meshes",
 "Each test has one numbering in one frame.",
 [P, F, B, S], [('gather/scatter by cells', P), ('get_shape_grads', F), ('get_face_shape_grads', F), ('I/J assembly', P)],
 ['solver', 'compute_residual', 'surface quadrature'])

prop('C09', 'A Newton solve returns a converged, constrained, finite solution or raises',
 "Whenever a Newton solve returns, the field is finite, satisfies the Dirichlet values, and its residual norm does not exceed the larger of the absolute tolerance and the relative tolerance times the initial residual; it raises instead of returning non-finite numbers. "
 "It starts from the given initial guess (zero if none), stops at the first iterate that meets either tolerance, needs one correction for linear problems, and with the line search enabled reaches the same solution without a residual increase that the search could have avoided.",
 ['inputs', 'configurations'], "linear and nonlinear problems, tolerances, initial guesses, line search on/off, singular systems",
 "Tests solve a few well-behaved problems with default tolerances.",
 [S], [('solver Newton loop', S), ('newton_step', S), ('line_search', S), ('apply_bc_vec', S)],
 ['solver', 'sequence of newton_update evaluations', 'linear solver callbacks'])

prop('C10', 'Solver options mean what they say: equivalent spellings, defaults, rejection',
 "Every documented spelling of a solver configuration (nested method block, legacy flat dictionary, omitted keys standing for the documented defaults) produces the same tolerances, initial guess, line search, linear backend and result. "
 "Configurations naming more than one nonlinear method, a method block that is not a dictionary, or an arc-length run with missing or unknown control or without the load vector force control needs, are rejected with an error.",
 ['configurations'], "all documented option spellings and invalid combinations on linear and nonlinear problems",
 "Tests use one or two option dictionaries each.",
 [S], [('_resolve_solver_options', S), ('solver defaults', S), ('linear_solver dispatch', S), ('_solve_arc_length', S)],
 ['solver', 'ad_wrapper', 'custom linear solver callback'])

prop('C11', 'Every linear backend solves the system it is given, or raises',
 "For any nonsingular sparse system arising from assembly, including nonsymmetric and transposed ones, each available backend (JAX with and without preconditioner, SciPy, PETSc with selectable method and preconditioner, user-supplied) returns the solution within its tolerance or raises, and leaves matrix, right-hand side and options unchanged. "
 "A user-supplied solver receives exactly the matrix, right-hand side, starting vector (already correct at Dirichlet degrees of freedom) and options, and what it returns is used; forward solutions and gradients agree across backends.",
 ['inputs', 'configurations'], "random assembled systems and transposes x backends x method/preconditioner options",
 "Each test uses one backend on one system.",
 [S], [('jax_solve', S), ('scipy_spsolve', S), ('petsc_solve', S), ('linear_solver', S), ('newton_step x0', S), ('implicit_vjp transpose', S)],
 ['linear_solver', 'solver', 'ad_wrapper'])

prop('C12', 'Solved fields reproduce exact solutions and converge at the optimal order',
 "On any conforming mesh of any supported element, if the exact solution of the boundary value problem lies in the finite element space, the solved field equals it at every node (patch test) for diffusion and elasticity, with Dirichlet, Neumann and Robin conditions. "
 "For smooth solutions outside the space, the error decreases under mesh refinement at the optimal order of the element.",
 ['inputs', 'configurations'], "element types x distorted meshes x polynomial exact solutions x boundary-condition mixes x PDEs; refinement sequences",
 "Tests compare single meshes with stored reference solutions at loose tolerances.",
 [P, F, B, S], [('get_tensor_map/get_mass_map/get_surface_maps kernels', P), ('get_shape_grads', F), ('Nanson scaling', F), ('solver', S)],
 ['solver', 'save/convert routines'])

prop('C13', 'A reused problem behaves like a freshly built one',
 "After any history of solves, boundary-condition updates (changed values, nodes or components), internal- and surface-variable updates, geometry updates and differentiations, the residual, tangent matrix and solution of a problem object equal those of a problem built from scratch with the current data. "
 "Matrices, fields or histories obtained earlier are evaluated against the state at the time, and stale boundary rows or values never survive a change.",
 ['histories'], "random sequences of updates, solves and gradients on one problem object",
 "Each test builds a problem and solves it once or in one fixed loading loop.",
 [S, P, F], [('_PetscTangentCache refresh', S), ('update_Dirichlet_boundary_conditions', F), ('set_params', P), ('initialize_geometric_quantities', P)],
 ['get_A', 'solver', 'compute_residual'], [('_petsc_tangent_cache', 'matrix reused across updates', S), ('internal_vars', 'current parameters', P)])

prop('C14', 'Adjoint gradients equal the true derivatives of the solution map',
 "For any problem wrapped for differentiation, the reverse-mode derivative of any scalar function of the solution with respect to any parameter pytree equals the derivative of the solve itself (finite differences / direct sensitivity), for linear and nonlinear, coupled, constrained and surface-parameterised problems, Dirichlet values and node coordinates. "
 "The wrapped forward call returns the same fields as the plain solver at these parameters, and the backward pass solves with the transposed tangent at the converged state.",
 ['inputs', 'programs'], "problem classes x parameter kinds (volume, surface, scalar, pytree, Dirichlet values, geometry) x objectives x backends",
 "No stable test differentiates anything.",
 [S, P], [('implicit_vjp', S), ('ad_wrapper', S), ('set_params', P), ('apply_bc', S), ('initialize_geometric_quantities', P)],
 ['jax.grad/vjp of ad_wrapper(problem)'])

prop('C15', 'Forward and backward calls may be interleaved freely',
 "Gradients and forward solutions obtained through the differentiable wrapper depend only on the parameters they were requested for: evaluating other parameters, other wrapped problems, plain solves or residuals between a forward pass and its backward pass, or repeating passes in any order, changes nothing. "
 "After a backward pass the problem remains usable and its state is that of the parameters just differentiated.",
 ['histories'], "random interleavings of forward, vjp, grad, plain solves over several parameters and problems",
 "Needs multi-call histories; no test differentiates.",
 [S, P], [('implicit_vjp re-applies set_params and newton_update', S), ('ad_wrapper residuals', S)],
 ['ad_wrapper', 'jax.vjp closures', 'Problem.compute_residual after differentiation'], [('internal_vars', 'parameters left in the problem', P)])

prop('C16', 'Linear multipoint constraints are enforced exactly',
 "With a constraint matrix P given, the returned field lies in the range of P, the reduced residual (P transposed times the residual) vanishes within tolerance, Dirichlet values hold, and the system matrix is the projected tangent; the field equals that of direct elimination, with or without line search or an initial guess. "
 "The periodic-boundary helper of the applications builds a P that ties each listed node component on one side to its image on the other and leaves all other degrees of freedom free.",
 ['inputs', 'programs'], "random constraint matrices (ties, weighted combinations, periodicity) x linear/nonlinear problems",
 "No stable test uses constraints.",
 [S, 'applications/periodic_bc/example.py'], [('P_mat handling in solver/newton_step/get_A/implicit_vjp', S), ('periodic_boundary_conditions', 'applications/periodic_bc/example.py')],
 ['solver', 'get_A', 'ad_wrapper', 'periodic_boundary_conditions'])

prop('C17', 'Arc-length continuation stays on the equilibrium path and reports truthfully',
 "Every recorded arc-length step satisfies equilibrium at its load factor (scaled Dirichlet values or scaled load vector) within the solver tolerance and lies at the requested arc distance from the previous step in the psi-scaled displacement-load norm, moving forward along the path. "
 "The history, callbacks and returned information agree with the steps taken and the step limits; at full load the returned solution is the Newton-polished solution of the full problem, and if full load is not reached this is reported and the last continuation point is returned.",
 ['inputs', 'histories'], "linear and nonlinear (snap-through) problems x control modes x step lengths x psi x step limits",
 "No stable test runs the arc-length solver.",
 [S], [('arc_length_solver_disp_driven', S), ('arc_length_solver_force_driven', S), ('_finish_arc_length', S), ('get_q_vec', S)],
 ['solver(..., arc_length) result and info', 'step_callback'])

prop('C18', 'Dynamic relaxation ends at constrained equilibrium',
 "When dynamic relaxation returns, the largest residual component over unconstrained degrees of freedom is within the requested tolerance and the Dirichlet values hold exactly, starting from the linear predictor or the given initial guess. "
 "For problems with a unique solution the result is the Newton solution, for one or several variables and whatever the mass-update and printing intervals.",
 ['inputs', 'configurations'], "linear/nonlinear problems x tolerances x intervals x initial guesses x variables",
 "No stable test runs dynamic relaxation.",
 [S], [('dynamic_relax_solve', S), ('assembleCSR', S), ('_solve_dynamic_relax', S)], ['solver(..., dynamic_relax)'])

prop('C19', 'Mesh generators produce valid conforming meshes of the requested domain',
 "Every generator returns a mesh with the requested number of cells that fills exactly the requested domain with positively oriented, non-overlapping, conforming cells in the library's node order, no duplicate or unused nodes, and boundary faces on the domain boundary only. "
 "Generated boxes work for every supported element type offered, and mesh-type names map to the matching file cell types.",
 ['inputs'], "cell counts and sizes, element types, cylinder parameters",
 "Tests use one or two fixed meshes.",
 [G], [('rectangle_mesh', G), ('box_mesh', G), ('box_mesh_gmsh', G), ('cylinder_mesh_gmsh', G), ('get_meshio_cell_type', G), ('check_mesh_TET4', G)],
 ['returned meshio meshes'])

prop('C20', 'Saved files and utility helpers preserve the data they are given',
 "A saved solution read back contains the same points, cells, cell type, nodal solution, and every cell and point field at single precision under the given names, for all element types and also in new directories, and wrongly shaped data are rejected. "
 "File-version conversion, Abaqus conversion and JSON parsing keep all content, and the timing decorators return the wrapped function's result unchanged.",
 ['inputs'], "element types x fields x file formats x helper inputs",
 "Tests only write files and never read the fields back.",
 [U], [('save_sol', U), ('modify_vtu_file', U), ('read_abaqus_and_write_vtk', U), ('json_parse', U), ('timeit / walltime', U)],
 ['files on disk', 'return values'])

prop('C21', 'An MMA step is the solution of its convex subproblem within the bounds',
 "Every MMA update lies within the variable bounds, the move limit and the moving asymptotes, and minimises the separable convex approximation built from the supplied values and gradients: the returned point, slacks and multipliers satisfy its optimality conditions. "
 "The asymptotes widen where a variable moves monotonically, tighten where it oscillates, and stay within their allowed distance, and repeated steps on convex problems converge to the constrained optimum.",
 ['inputs', 'histories'], "random objectives/constraints, dimensions (more or fewer constraints than variables), bounds, histories",
 "No stable test touches the optimiser.",
 [M], [('MMA.mmasub', M), ('subsolv', M)], ['MMA.getOptimalValues', 'getLagrangeMultipliers', 'getAsymptoteValues', 'getSlackValue'])

prop('C22', 'Topology optimisation keeps designs feasible and filters sensitivities',
 "The design returned after each optimisation iteration stays in [0,1] and within the move limit of the previous one; objective and constraint callbacks are called once per iteration with the current design and iteration number, and the final design is the last update. "
 "The filter weighs each neighbouring cell by the cone rmin minus centre distance with rmin 1.5 average cell sizes, normalises by the row sums, keeps constant densities unchanged and is applied to objective and constraint sensitivities.",
 ['inputs', 'histories'], "meshes x flexible-cell subsets x move limits x objectives x iteration counts",
 "No stable test runs the optimiser or the filter.",
 [M], [('compute_filter_kd_tree', M), ('applySensitivityFilter', M), ('applyDensityFilter', M), ('optimize', M)], ['optimize callbacks and result', 'compute_filter_kd_tree'])

FP = 'applications/finite_plasticity/model.py'
prop('C23', 'Finite-strain plasticity returns admissible, objective, path-consistent states',
 "For any deformation history, the returned stress is the elastic trial stress while that is below yield and lies on the hardened yield surface during plastic flow, with mean stress given by the current volume change alone; accumulated plastic strain never decreases and grows only during plastic flow, and the state only advances when it is updated. "
 "A superposed rigid rotation rotates the stress and leaves the scalar state unchanged, a repeated (zero) increment changes nothing, and the structural tangent is the derivative of the stress update.",
 ['histories', 'inputs'], "random load/unload/rotation deformation-gradient histories, strain levels",
 "The tests check the yield condition for two fixed increments.",
 [FP], [('get_maps / get_tensor_map', FP), ('update_int_vars_gp', FP), ('compute_stress', FP)], ['get_tensor_map', 'update_int_vars_gp', 'compute_stress', 'newton_update'])

CP = 'applications/crystal_plasticity/models.py'
prop('C24', 'Crystal plasticity solves its local slip equations and is frame indifferent',
 "For any deformation step, crystal orientation, state and fixed time step, the stress returned solves the model's implicit stress-slip equations, and the updated plastic deformation, slips and slip resistances follow from that stress by the model's flow and hardening rules on its twelve fcc slip systems. "
 "Rotating deformation and crystal together rotates the stress, an unchanged reference state gives zero stress and no change, and the derivative supplied for the structural tangent equals the derivative of the computed stress with respect to deformation and state parameters.",
 ['histories', 'inputs'], "random deformation gradients, orientations, histories, time steps",
 "No test runs the crystal model.",
 [CP], [('get_maps', CP), ('update_int_vars_gp', CP), ('implicit local solve with custom derivative', CP)], ['get_tensor_map', 'update_int_vars_gp'])

PF = 'applications/phase_field_fracture/eigen.py'
prop('C25', 'Tensor spectral functions and their derivatives are exact, also at repeats',
 "The tensor function built from a scalar function of eigenvalues equals the spectral definition for every symmetric input, including repeated, near-repeated and zero eigenvalues. "
 "Its derivative in every direction equals the exact directional derivative, finite everywhere, so positive/negative splits sum to the identity map and are rotation equivariant.",
 ['inputs'], "random symmetric matrices with distinct, repeated, nearly repeated eigenvalues; directions; scalar functions",
 "No test imports this module.",
 [PF], [('get_eigen_f_custom', PF)], ['returned function and its JAX derivatives'])

prop('C26', 'Library calls leave user data alone and are repeatable',
 "Building, solving, differentiating and saving never modify the user's mesh arrays, boundary-condition lists, option dictionaries, initial guesses, parameters or fields, and one problem's calls never influence another problem. "
 "Repeating a call with the same inputs gives the same result.",
 ['histories', 'inputs'], "all public entry points with shared meshes, options, guesses and parameter objects, repeated and interleaved",
 "Each test runs a single problem with fresh inputs in its own order.",
 [S, P, F, U, M, G], [('linear_solver defaults', S), ('_resolve_solver_options', S), ('Problem.__post_init__', P), ('Mesh', G)],
 ['arguments before and after each call', 'results of repeated calls'])

UL = 'applications/updated_lagrangian/example.py'
prop('C27', 'Updated-Lagrangian increments reproduce the total-Lagrangian neo-Hookean solid',
 "In applications/updated_lagrangian, for any admissible previous deformation, density and increment, the residual and tangent of the increment on the moved mesh equal those of the neo-Hookean solid (Kirchhoff stress MU(b-I)+LAMBDA ln J I, scaled by density cubed) under the total displacement, and the carried deformation gradient after a push is the gradient of the total displacement. "
 "Along a load path the nodes, gradients and prescribed end displacements follow the accumulated increments, every converged step is in equilibrium with the total prescribed motion (whatever the number of increments), the objective is the squared final displacement, the files show each step, and the density gradient through all increments is the true derivative.",
 ['inputs', 'histories'], "random meshes, densities, previous and incremental displacements; load paths with different increment counts",
 "No test runs this application; one run of the script cannot show path or increment errors.",
 [UL], [('UpdatedLagrangian.get_universal_kernel / set_params', UL), ('push_F_prev', UL), ('nodal_displacement_total_target', UL), ('end_to_end_ul', UL), ('write_step_vtus', UL)],
 ['set_params', 'compute_residual', 'newton_update', 'end_to_end_ul'])

QE = 'applications/quiet_element/example.py'
prop('C28', 'Element activation keeps faces, quiet nodes and heat balance consistent',
 "In applications/quiet_element, for any sequence of activations the external faces (however updated) are exactly the faces that belong to one active cell, the flags mark exactly those faces and, among them, the ones at the laser height; deactivation is rejected. "
 "Nodes of no active cell are held at the ambient temperature and inactive cells contribute nothing, so each step solves the implicit heat equation on the active cells alone with convection on their external faces and the laser on the top ones, heat is balanced, and the driver activates, times and saves every step as its tool path says.",
 ['histories', 'inputs'], "random meshes, activation histories, laser positions, tool paths",
 "No test runs this application; activation errors depend on the history of the set of active cells.",
 [QE], [('initialize_hash_map / update_hash_map', QE), ('get_active_face_truth_tab', QE), ('Thermal.set_params', QE), ('quiet_element_simulation', QE)],
 ['initialize_hash_map', 'update_hash_map', 'get_active_face_truth_tab', 'solver calls of the driver'])

APPS = ['applications/%s.py' % a for a in ('wave/example', 'thermal_mechanical_full/example', 'dendrite/implicit_fem/example', 'dendrite/explicit_fem/example', 'stokes/example', 'stokes/example_1var', 'stokes/example_2vars', 'robin_bc/example',
        'explicit_dynamics/example', 'arc_length/hyperelastic_models', 'scalability/hyperelastic3d_common', 'nodal_stress/example', 'third_medium_contact/example')]
prop('C29', 'Application physics models assemble their documented weak forms',
 "On any mesh and for any current and previous fields and parameters, the residuals of the application models equal quadrature of their weak forms: wave (central difference in time), coupled thermoelasticity (backward Euler with the elastic heating term), dendritic solidification (implicit, and explicit with lumped mass), Stokes flow (one-variable and two-variable forms), diffusion with Robin boundaries, linear elastic and neo-Hookean solids (arc_length, scalability, nodal_stress), third-medium contact. "
 "A time step whose exact solution lies in the space is reproduced, hyperelastic stress is the derivative of the energy and vanishes at rest, the contact averages and rotations follow their definitions, cell orientation helpers keep the nodes and give positive volume, and nodal gradients of linear fields are exact.",
 ['inputs', 'histories'], "random meshes, element types, fields, previous-step states and parameters for each model",
 "No test imports these models; a sign, a factor or a previous-step mix-up changes results only quantitatively.",
 APPS, [('get_tensor_map / get_mass_map / get_universal_kernel / get_surface_maps of each model', 'applications/*/example.py'), ('transform_cells', 'applications/stokes/example.py'), ('set_params', 'applications/wave/example.py')],
 ['compute_residual', 'set_params', 'get_tensor_map'])

FR, TM = 'applications/phase_field_fracture/example.py', 'applications/thermal_mechanical/example.py'
prop('C30', 'Staggered fracture and melt-pool simulations advance their state correctly',
 "In applications/phase_field_fracture the history field is the largest tensile energy reached (kept over load steps, never decreasing), the damage solves its linear equation driven by that history, the displacement is in equilibrium with the degraded positive and undegraded negative spectral stress under the prescribed top displacement, each step iterates until both fields stop changing, and the recorded tractions are the stress resultants on the top. "
 "In applications/thermal_mechanical each heat step solves the implicit heat equation with the moving laser and the convection and radiation losses; powder melts above and liquid solidifies below the liquidus only, stress follows the elastoplastic return map with phase-dependent stiffness and expansion within the yield bound, and state is carried exactly from one mechanical step to the next; saved fields are those of the step.",
 ['histories', 'inputs'], "the scripts on random meshes with every solve observed; random strains, damage, temperatures, phases and stress states through the models",
 "No test runs these scripts; state handled one step too early or too late still looks plausible.",
 [FR, TM], [('Elasticity.get_maps / compute_history / compute_traction', FR), ('PhaseField', FR), ('staggered loop', FR), ('Thermal.get_surface_maps', TM), ('Plasticity.get_maps / update_stress_strain / update_dT_and_phase', TM), ('time loop', TM)],
 ['solver calls of the scripts', 'compute_history', 'compute_traction', 'update_stress_strain', 'update_dT_and_phase'])

PE, PG, PM = ('applications/parallel/%s.py' % n for n in ('example', 'poisson_gold', 'poisson_mpi'))
prop('C31', 'Parallel Poisson examples assemble and solve the same problem on any partition',
 "In applications/parallel, the triangle stiffness and load are those of linear elements for any triangle (invariant under rotation, scaling and vertex order), global row numbers decode from owned and ghost offsets, and the grids cover their rectangle. "
 "For any partition of the mesh into ranks (ghost vertices, ranks owning no vertices), the scattered residual and matrix sum to those of the serial problem, gathered ghost values are the owners' values, and the reported error is the global root mean square. "
 "The nonlinear model equals quadrature of grad u.grad v + u^3 v - f v on any mesh with the homogeneous boundary values, f belongs to the documented exact solution, both drivers solve their problem to the stated tolerance and the serial and the DMPlex driver give the same answer.",
 ['configurations', 'inputs'], "random triangles, grids, partitions with ghosts and empty ranks, fields, drivers on distorted and renumbered grids",
 "No test runs these examples; a partition-dependent error needs several ranks.",
 [PE, PG, PM], [('element_stiffness / element_load / assemble_poisson', PE), ('NonlinearManufacturedPoisson', PG), ('scatter, gather and Newton routines', PM)],
 ['matrix and vector entries set by each rank', 'driver results and files'])

CR, ML, FD = 'applications/convergence_rate/example.py', 'applications/differentiable_mesh/example.py', 'applications/dendrite/explicit_fd/example.py'
CS = ['applications/crystal_plasticity/stress_sensitivity.py', 'applications/crystal_plasticity/volume_sensitivity.py']
prop('C32', 'Verification and sensitivity scripts report true norms, gradients and fields',
 "In applications/convergence_rate the reported L2 and H1 errors are the norm of the difference to the exact field and the sum of the norms of the difference and of its gradient, for any mesh, element and field, and vanish exactly when they agree. "
 "In applications/differentiable_mesh the gradient with respect to node coordinates is the derivative of the objective of freshly built problems on moved meshes. "
 "In applications/crystal_plasticity the two sensitivity scripts return the derivative of the simulated history with respect to their parameters. "
 "The finite-difference dendrite follows its published scheme for any parameters and grid shape (anisotropy, latent heat, boundary rows, saved frames). "
 "The arc-length demonstration stays in equilibrium with its load factor, and location functions that use the node index select exactly those nodes and faces (applications/boundary_index).",
 ['inputs', 'histories'], "random meshes, fields, node motions, parameters, grids and orientations",
 "No test runs these scripts; a wrong factor in a norm or a gradient still prints plausible numbers.",
 [CR, ML, FD] + CS + ['applications/arc_length/demo_analytical.py', 'applications/boundary_index/example.py'],
 [('error norms', CR), ('mesh sensitivity', ML), ('history sensitivities', CS[0]), ('finite-difference phase field', FD)],
 ['values returned by the norm functions', 'gradients', 'saved frames'])

BK = ['applications/arc_length/beam2d_displacement.py', 'applications/arc_length/beam2d_force.py', 'applications/dynamic_relaxation/beam2d_displacement.py', 'applications/dynamic_relaxation/beam3d_displacement.py',
      'applications/dynamic_relaxation/cellular_displacement.py', 'applications/scalability/example_forward.py', 'applications/scalability/example_inverse_timing.py']
prop('C33', 'Buckling, relaxation and scalability scripts solve the problems they describe',
 "The arc-length and dynamic-relaxation beam scripts, the cellular solid and the scalability scripts set up the documented neo-Hookean energy, loads, counter-load vector and prescribed displacements on their geometry for any refinement. "
 "Every state they report or save is the solver's state and is in equilibrium (internal forces of the energy plus imposed loads, scaled by the load factor in force control) with the prescribed displacements of that load factor; the second relaxation starts from the first. "
 "The inverse scalability script evaluates its objective at that equilibrium and its gradient with respect to the density is the true derivative.",
 ['inputs', 'histories'], "the scripts on different refinements with every solve and step observed; random states and densities",
 "No test runs these scripts; a lost load or a wrong sign bends the beam another way without failing.",
 BK, [('example / main', BK[0]), ('Elasticity / HyperElasticity models', 'applications/arc_length'), ('simulation', BK[4]), ('main', BK[6])],
 ['solver calls', 'step callbacks', 'saved solutions'])

TD = ['applications/wave/example.py', 'applications/thermal_mechanical_full/example.py', 'applications/dendrite/implicit_fem/example.py', 'applications/dendrite/explicit_fem/example.py', 'applications/explicit_dynamics/example.py']
prop('C34', 'Transient driver scripts advance every step by the documented time scheme',
 "The wave, thermo-elasticity, implicit and explicit finite-element dendrite and explicit elastic waveguide scripts start from the documented initial state and boundary conditions on any input mesh (cells listed in either orientation) or parameter file. "
 "Every step satisfies its documented step equation with the states of the previous one or two steps and the step size of that step: the state carried from step to step is the solution just obtained. "
 "The saved files are one per announced step, hold the field of that step and never replace each other; the energies, probe history, wave speed, error and drift the waveguide reports belong to the computed history.",
 ['inputs', 'histories'], "random meshes and parameter files put in place of the shipped input, whole time loops with every solve and saved file observed",
 "No test runs these scripts; a stale state, a step size of another step or a shifted file still gives a smooth-looking animation.",
 TD, [('main_fns', TD[0]), ('main_fns', TD[1]), ('simulation', TD[2]), ('simulation', TD[3]), ('main', TD[4])],
 ['solver calls', 'saved files', 'printed and plotted results'])

SD = ['applications/robin_bc/example.py', 'applications/stokes/example.py', 'applications/stokes/example_1var.py', 'applications/stokes/example_2vars.py', 'applications/third_medium_contact/example.py', 'applications/nodal_stress/example.py', 'applications/serendipity/example.py',
      'applications/finite_plasticity/single_cell.py', 'applications/finite_plasticity/thin_plate.py', 'applications/crystal_plasticity/polycrystal_neper.py', 'applications/periodic_bc/example.py']
prop('C35', 'Static and load-history driver scripts impose, solve and save what they describe',
 "The remaining driver scripts (Robin Poisson, Stokes with no-slip contours, elasticity as one or two variables, third-medium contact, twisted cube, serendipity cube, the two finite-plasticity histories, the polycrystal, the periodic Poisson problem) work on any input mesh of their geometry. "
 "They prescribe exactly the documented values on exactly the documented nodes, every solve ends in balance of the documented weak form, one- and two-variable elasticity agree, periodic sides match and the reported derivative is the true one. "
 "Load histories follow their schedule: each step starts from the state and solution of the step before, the material state advances once per converged step, grains keep their orientation, and the saved stresses belong to the step and state they are saved with.",
 ['inputs', 'histories'], "random small meshes (holes, clockwise cells, renumbered nodes, grains) put in place of the shipped input; whole load histories observed",
 "No test runs these scripts; a missing constraint, a stale state or a stress of the wrong step still converges.",
 SD, [('problem', SD[0]), ('problem / configure_Dirichlet_BC_for_dolphin', SD[1]), ('problem', SD[4]), ('simulation', SD[7]), ('problem', SD[9]), ('periodic_boundary_conditions / problem', SD[10])],
 ['solver calls', 'constraint tables', 'internal variables', 'saved files', 'printed results'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in props: f.write(json.dumps(p) + '\n')
print(len(props))
