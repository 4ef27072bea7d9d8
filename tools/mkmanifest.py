"""Writes MANIFEST.json and known_findings.json (the one place where both are kept)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B'
TECH = {
 'C01': 'runtime monitor: tabulated shape functions and quadrature against independently derived ones',
 'C02': 'runtime monitor: independent geometry oracle over random meshes',
 'C03': 'runtime monitor: independent facet-geometry oracle over random meshes and face sets',
 'C04': 'runtime monitor: per-node selection oracle over random selections and updates',
 'C05': 'runtime monitor: reference-model assembly (plain loops) against the observed residual',
 'C06': 'runtime monitor: observed matrix against forward-mode derivative and differences of the observed residual',
 'C07': 'runtime monitor: reference-model assembly and differential runs over variable permutations',
 'C08': 'runtime monitor: metamorphic runs (renumbering, rigid motion, scaling)',
 'C09': 'runtime monitor: recorded Newton histories replayed offline, with fault injection',
 'C10': 'runtime monitor: recorded solver calls compared over equivalent option spellings; rejection events',
 'C11': 'runtime monitor: residual oracle on every linear solve; recording user solver; differential backends',
 'C12': 'runtime monitor: manufactured solutions, patch tests and refinement sequences',
 'C13': 'runtime monitor: random operation histories against a freshly built problem as executable model',
 'C14': 'runtime monitor: observed adjoint gradients against finite differences and direct sensitivities',
 'C15': 'runtime monitor: random forward/backward interleavings against isolated runs as executable model',
 'C16': 'runtime monitor: constraint, reduced-residual and elimination oracles on observed solves',
 'C17': 'runtime monitor: recorded arc-length steps replayed against the control equations',
 'C18': 'runtime monitor: equilibrium oracle and differential Newton runs over dynamic-relaxation runs',
 'C19': 'runtime monitor: structural mesh invariants on generated meshes',
 'C20': 'runtime monitor: write/read round trips with independent parsers over event histories',
 'C21': 'runtime monitor: per-step optimality-system oracle on observed MMA runs',
 'C22': 'runtime monitor: filter definition oracle and replay of logged optimiser callbacks',
 'C23': 'runtime monitor: online state monitor of the return mapping over deformation histories',
 'C24': 'runtime monitor: online state monitor of slip equations over deformation histories',
 'C25': 'runtime monitor: spectral-definition and divided-difference oracle on observed values and derivatives',
 'C26': 'runtime monitor: fingerprints of user objects around every call; history repetition and isolation oracle',
 'C27': 'runtime monitor: total-Lagrangian reference model on observed increments and load paths',
 'C28': 'runtime monitor: from-scratch activation sets and active-cell reference assembly on every observed step',
 'C29': 'runtime monitor: quadrature of the documented weak forms against observed application residuals',
 'C30': 'runtime monitor: step-by-step audit of every solve and state update of two staggered simulations',
 'C31': 'runtime monitor: recording matrices of simulated ranks against serial reference assembly; audited driver runs',
 'C32': 'runtime monitor: own quadrature, finite differences and reference schemes against observed script results',
 'C33': 'runtime monitor: own energy quadrature on every state the observed scripts solve, report or save',
 'C35': 'runtime monitor: own balance, constraint tables and material state beside every observed solve and saved file',
 'C34': 'runtime monitor: own copy of the state and own step equations beside every observed time step and saved file',
}
FIXED = [
 ('C11', '431ea9a', 'jax_solver precond=False: the option was ignored, the preconditioner was always used (also C10)'),
 ('C26', '51ba9e7', "linear_solver wrote the default 'jax_solver' entry into the caller's options dictionary"),
 ('C15', '19e48bf', 'a backward pass through ad_wrapper left tracers in the problem (internal_vars), so the next plain use of it failed'),
 ('C04', '039ccf3', 'Mesh.count_selected_faces raised on every mesh whose points are a JAX array'),
 ('C20', 'f1477e2', 'walltime used a jax attribute that no longer exists and raised'),
 ('C16', 'fa7acdb', 'line_search_flag together with P_mat raised or mixed reduced and full vectors'),
 ('C18', '4ceb7a2', 'dynamic relaxation built its matrix with the size of variable 0 only and failed on multi-variable problems'),
 ('C01', 'ae80402', 'QUAD8/HEX20 shape functions were not nodal (serendipity space of basix: values at nodes were not 0/1)'),
 ('C25', '34ff9c7', 'derivative of the eigenvalue function was wrong/NaN for numerically (not bitwise) repeated eigenvalues'),
 ('C17', '0737397', 'arc-length steps after the first returned the uncorrected predictor'),
 ('C20', '7173585', 'save_sol raised for a file name without a directory part'),
 ('C22', '515c628', 'compute_filter_kd_tree dropped neighbours beyond a fixed count although they are within the radius'),
 ('C28', '3d27c97', 'quiet_element: update_hash_map accepted deactivated cells when as many were born, and then reported stale external faces'),
 ('C31', '2bb75da', 'poisson_mpi: a rank that owns no rows dropped its off-rank matrix and residual entries'),
 ('C31', '78f41e0', 'poisson_mpi: boundary rows were cleared without their columns, so CG worked on a nonsymmetric matrix and failed for tight tolerances'),
 ('C31', 'cf47331', 'poisson_gold: the reaction term mixed quadrature points when a cell has more than one (any element but TRI3)'),
 ('C32', '882771f', 'explicit_fd dendrite: the gradient of eps**2 was frozen at its first value by jit'),
 ('C32', 'd3c4d87', 'explicit_fd dendrite: grids with nx != ny failed'),
 ('C22', '74caa73', 'compute_filter_kd_tree failed for meshes whose points are JAX arrays'),
]
NOTE = ('Held on the executions driven, nothing more: exploration of randomly drawn inputs and histories (seeded by VERIF_SEED; counts of what each monitor observed are in the evidence file). '
        'Trusts numpy/scipy double arithmetic, JAX autodiff where the oracle differentiates its own formulas, and the oracles in vmon/.')
EXTRA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    m = {'version': 1,
         'setup_cmd': f"{PY} -c \"import sys; sys.path.insert(0, '.'); import vmon.core, numpy, scipy\"",
         'checks': [{'property': p['id'], 'quick_cmd': f"{PY} vmon/main.py {p['id']}",
                     'thorough_cmd': f"{PY} vmon/main.py {p['id']} --tier thorough",
                     'technique': TECH[p['id']], 'level': 'exploration', 'level_note': NOTE + EXTRA.get(p['id'], '')} for p in props],
         'not_applicable': [],
         'notes': 'No hooks in /repo: every monitor observes through public attributes, callbacks and wrappers installed from the harness. VERIF_REPO=<dir> points the checks at another tree (used for scratch copies only). Known findings and repairs: known_findings.json.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    json.dump({'findings': [], 'fixed': [f'fixed: property={p} {c} {w}' for p, c, w in FIXED]}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
main()
