import os, types
import numpy as np
from ..refelem import ref

PROPERTY = 'C26'
RULE = ('history cases: two problems of one user class built from the same mesh, boundary-list, option, guess and parameter objects; a random schedule of solves (every method and backend), wrapped forward and '
        'backward passes, residuals, tangents, boundary and parameter updates, rebuilds and saves; every user object is fingerprinted before and after each call, every result is compared with the one obtained from private '
        'copies on a fresh problem before the schedule started, and with itself when repeated. entry cases: single entry points (constructors, element helpers, generators, topology optimisation, periodic helper, material '
        'models) called twice on fingerprinted objects. Non-trivial: at least two calls made with all fingerprints compared.')
REQUIRED = ['mesh', 'bc_info', 'options', 'guess', 'params', 'fields', 'same_as_isolated', 'repeat', 'other_problem', 'read_only', 'numpy_guess', 'op_newton', 'op_line_search', 'op_petsc', 'op_jax', 'op_custom', 'op_arc_length',
            'op_dynamic_relax', 'op_constrained', 'op_grad', 'op_residual', 'op_tangent', 'op_rebuild', 'op_update_bc', 'op_save', 'results_kept', 'multi_variable', 'entry_elements', 'entry_generators', 'entry_mma', 'entry_periodic',
            'entry_plasticity', 'entry_linear', 'entry_geometry', 'entry_filter', 'defaults_kept', 'global_state', 'other_matrix', 'third_problem', 'arc_polished']
TYPES = ['QUAD4', 'TRI3', 'HEX8', 'TRI6', 'QUAD8', 'TET4']
OPS = ['newton', 'line_search', 'petsc', 'jax', 'custom', 'arc_length', 'dynamic_relax', 'constrained', 'grad', 'residual', 'tangent', 'rebuild', 'update_bc', 'save', 'forward', 'set_params']
ENTRIES = ['elements', 'generators', 'mma', 'periodic', 'plasticity', 'linear', 'geometry', 'filter']


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'history', 'type': TYPES[k % 6], 'multi': k % 3 == 2, 'ro': k % 2 == 1, 'first': k, 'len': int(rng.integers(10, 14))} for k in range(16 if q else 120)]
    out += [{'kind': 'entry', 'what': ENTRIES[k % len(ENTRIES)], 'k': k // len(ENTRIES)} for k in range(len(ENTRIES) * (2 if q else 10))]
    return out


def snap(o, depth=0):
    """A comparable fingerprint of a user object: structure, identity of callables, bytes of arrays."""
    import scipy.sparse
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('objarr', o.shape, tuple(snap(a, depth + 1) for a in o.reshape(-1)))
        return ('np', o.shape, str(o.dtype), o.strides, o.flags.writeable, o.tobytes())
    if scipy.sparse.issparse(o):
        return ('sparse', o.shape, type(o).__name__, snap(o.tocsr(copy=False).data), snap(o.tocsr(copy=False).indices), snap(o.tocsr(copy=False).indptr))
    if isinstance(o, dict):
        return ('dict', tuple((repr(k), snap(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(a, depth + 1) for a in o))
    if hasattr(o, 'shape') and hasattr(o, 'dtype') and hasattr(o, '__array__'):
        return ('jax', tuple(o.shape), str(o.dtype), np.asarray(o).tobytes())
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type)):
        return ('fn', id(o))
    if isinstance(o, (int, float, str, bool, complex, type(None), np.generic)):
        return (type(o).__name__, repr(o))
    if hasattr(o, '__dict__') and depth < 4:
        return ('obj', type(o).__name__, tuple((k, snap(v, depth + 1)) for k, v in sorted(vars(o).items())))
    return ('id', id(o))


class Guard:
    """Fingerprints named user objects around a call."""

    def __init__(self, ctx, **objs):
        self.ctx, self.objs = ctx, objs
        self.before = {k: snap(v) for k, v in objs.items()}

    def done(self, what):
        for k, v in self.objs.items():
            name = k.split('__')[0]
            after = snap(v)
            self.ctx.check(after == self.before[k], name, lambda: f'{what} changed {k}: {diff(self.before[k], after)}')


def diff(a, b):
    if a == b:
        return ''
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return f'{str(a)[:200]} -> {str(b)[:200]}'


def leaves(x):
    """Arrays of a result, as owned numpy copies."""
    if isinstance(x, dict):
        return [l for k in sorted(x, key=str) for l in leaves(x[k])]
    if isinstance(x, (list, tuple)):
        return [l for a in x for l in leaves(a)]
    if x is None or isinstance(x, (str, types.FunctionType)):
        return []
    return [np.array(x)]


def same(ctx, a, b, name, tol, what):
    a, b = leaves(a), leaves(b)
    ctx.event(name)
    if len(a) != len(b):
        ctx.fail(name, f'{what}: {len(a)} arrays instead of {len(b)}')
        return
    for x, y in zip(a, b):
        if x.shape != y.shape or not (np.allclose(x, y, rtol=tol, atol=tol * (1. + (np.max(np.abs(y)) if y.size else 0.))) if x.dtype.kind in 'fiuc' else np.array_equal(x, y)):
            ctx.fail(name, f'{what}: differs by {np.max(np.abs(x - y)) if x.shape == y.shape else (x.shape, y.shape)}')
            return


def run_case(ctx, case):
    from .. import fem, zoo, meshes
    rng = np.random.default_rng(case['seed'])
    before = np.random.get_state()[1].tobytes()
    x64 = fem.jax.config.jax_enable_x64
    cwd = os.getcwd()
    if case['kind'] == 'history':
        history(ctx, case, rng, fem, zoo, meshes)
    else:
        globals()['entry_' + case['what']](ctx, case, rng, fem, zoo, meshes)
        ctx.event('entry_' + case['what'])
    ctx.check(np.random.get_state()[1].tobytes() == before and fem.jax.config.jax_enable_x64 == x64 and os.getcwd() == cwd, 'global_state', 'random state, precision or working directory changed')


# ---------------------------------------------------------------- schedules over shared objects

def history(ctx, case, rng, fem, zoo, meshes):
    import copy
    import scipy.sparse as sp
    jax, jnp = fem.jax, fem.np
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    while len(m.points) < 8:
        m = zoo.small_mesh(case['type'], rng, distort=.1)
    N, dim = len(m.points), m.dim
    vecs = [2, 1] if case['multi'] else [2]
    order = 3 if case['type'] in ('QUAD8',) else 2
    n = N * sum(vecs)
    dn, rest = zoo.split_boundary(m, rng, .4)
    if case['multi']:
        ctx.event('multi_variable')

    # ---- the user's class and objects
    def custom_init(self, k, w):
        self.internal_vars = [jnp.asarray(k)]
        self.internal_vars_surfaces = [[jnp.asarray(w)]]
        self.k0 = k

    def form(us, gs, x, k):
        k = k[0]
        S = [us[0] * .7 + us[0] ** 3 * .2 - jnp.sin(x[0])]
        Fx = [(1. + k) * gs[0]]
        if case['multi']:
            S = [S[0] + .3 * us[1], us[1] * 1.4 - .2 + .3 * us[0][:1]]
            Fx = Fx + [(2. - k) * gs[1]]
        return S, Fx

    def face(us, gs, x, w):
        return [us[0] * w[0] - .3] + ([us[1] * .5] if case['multi'] else [])

    def set_params(self, q):
        self.internal_vars = [q['k']]
        self.internal_vars_surfaces = [[q['w']]]
    User = type('User', (fem.Problem,), {**zoo.universal_methods(form, [face]), 'custom_init': custom_init, 'set_params': set_params, **zoo.step_budget(4000)})
    pts, cells = m.points.copy(), m.cells.copy()
    probe = fem.FiniteElement(mesh=fem.mk(m), vec=1, dim=dim, ele_type=m.t, quadrature_order=order)
    nq, nfq = probe.num_quads, probe.num_face_quads
    nf = len(probe.get_boundary_conditions_inds([zoo.in_ids(rest)])[0])
    datas = [{'k': rng.uniform(.2, 1., (len(cells), nq, 1)), 'w': rng.uniform(.5, 1.5, (nf, nfq, 1))} for _ in range(3)]

    def infos(val, comp, ids):
        one = [[zoo.in_ids(ids), zoo.in_ids(ids[:1])], [comp, 1 - comp], [lambda p: val + .1 * p[0], lambda p: -val]]
        return [one, [[zoo.in_ids(ids)], [0], [lambda p: .5 * val]]] if case['multi'] else one
    bcs = [infos(.3, 0, list(dn)), infos(-.2, 1, list(dn[:max(1, len(dn) // 2)]))]
    loc = [zoo.in_ids(rest)]
    guess = [rng.normal(size=(N, v)) * .1 for v in vecs]
    jguess = [jnp.asarray(g) for g in guess]
    rec = lambda A, b, x0, o: zoo.dense_solve(A, b)
    tol = {'tol': 1e-9, 'rel_tol': 1e-12}
    fx = [k for k, _ in _bc_dofs(bcs[0], m, vecs, N)]
    free = [i for i in range(n) if i not in set(fx) | {k for k, _ in _bc_dofs(bcs[1], m, vecs, N)}]
    P = None
    if len(free) > 3:
        keep = [i for i in range(n) if i != free[0]]
        P = sp.csr_array((np.ones(n), (np.arange(n), [keep.index(i) if i != free[0] else keep.index(free[1]) for i in range(n)])), shape=(n, n - 1))
    opts = {
        'newton': {'newton': {**tol, 'linear': {'spsolve_solver': {}}, 'initial_guess': guess}},
        'line_search': {'line_search_flag': True, 'spsolve_solver': {}, 'initial_guess': jguess, **tol},
        'petsc': {'newton': {'linear': {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}}, **tol}},
        'jax': {'newton': {'linear': {'jax_solver': {'precond': True}}, 'tol': 1e-6}},
        'default': {},
        'custom': {'custom_solver': rec, 'my_own_key': [1, {'a': np.arange(3.)}], **tol},
        'arc_length': {'arc_length': {'control': 'displacement', 'Delta_l': 2., 'psi': 1., 'max_continuation_steps': 30, 'return_info': True, 'linear': {'spsolve_solver': {}}, 'newton': dict(tol)}},
        'dynamic_relax': {'dynamic_relax': {'tol': 1e-5, 'info': False, 'info_force': False, 'linear': {'spsolve_solver': {}}, 'initial_guess': guess}},
        'adjoint': {'spsolve_solver': {}},
    }
    params = [{'k': d['k'].copy(), 'w': d['w'].copy()} for d in datas]
    cot = [rng.normal(size=(N, v)) for v in vecs]
    field = [rng.normal(size=(N, v)) for v in vecs]
    if case['ro']:
        ctx.event('read_only')
        for a in [pts, cells] + guess + field + cot + [v for q in params for v in q.values()]:
            a.flags.writeable = False
    ctx.event('numpy_guess')
    infos_ci = [np.arange(len(cells), dtype=float), rng.normal(size=len(cells))]
    cell_infos, point_infos = [('c', infos_ci[0]), ('r', infos_ci[1])], [('p', rng.normal(size=N))]

    def mesh_of(a, b):
        return fem.Mesh(a, b, m.t)
    shared = mesh_of(pts, cells)
    extra = [(datas[0]['k'], datas[0]['w']), (datas[1]['k'], datas[1]['w'])]
    ET = [m.t] * len(vecs)
    QO = [order] * len(vecs)

    def build(mesh, bc, add):
        if case['multi']:
            return User([mesh, mesh], vec=V, dim=dim, ele_type=ET, quadrature_order=QO, quadrature_rule=QR, dirichlet_bc_info=bc, location_fns=loc, additional_info=add)
        return User(mesh, vec=V, dim=dim, ele_type=m.t, quadrature_order=order, dirichlet_bc_info=bc, location_fns=loc, additional_info=add)
    V = list(vecs) if case['multi'] else vecs[0]
    QR = [None] * len(vecs)

    def update_bc(p, bc):
        for i, fe in enumerate(p.fes):
            fe.update_Dirichlet_boundary_conditions(bc[i] if case['multi'] else bc)

    def call(op, p, o, arg):
        """o: dictionary of options; arg: (params, cotangent, field, P)"""
        if op == 'jax':
            return or_raised(lambda: fem.solver(p, o[op]))
        if op in ('newton', 'line_search', 'petsc', 'custom'):
            return fem.solver(p, o[op])
        if op == 'arc_length':
            try:
                s, info = fem.solver(p, o[op])
            except AssertionError:          # no point at that arc distance: the run says so
                return [np.zeros(1)]
            arc_info.append(info['polished'])
            return [s, info['lam'], [h['u'] for h in info['history']], [h['lam'] for h in info['history']]]
        if op == 'dynamic_relax':
            with fem.captured():
                return fem.solver(p, o[op])
        if op == 'constrained':
            if arg['P'] is None:
                return []
            p.P_mat = arg['P']
            try:
                return fem.solver(p, {'newton': {**tol, 'linear': o['adjoint']}})
            finally:
                del p.P_mat
        if op in ('grad', 'forward'):
            fwd = fem.ad_wrapper(p, o['newton'], o['adjoint'])
            if op == 'forward':
                return fwd(arg['params'])
            return jax.grad(lambda q: sum(jnp.sum(a * jnp.asarray(b)) for a, b in zip(fwd(q), arg['cot'])))(arg['params'])
        if op == 'residual':
            return p.compute_residual(arg['field'])
        if op == 'tangent':
            r = p.newton_update(arg['field'])
            A = fem.csr(fem.solver_mod.get_A(p))
            return [r, A.toarray()]
        raise KeyError(op)
    TOLS = {'jax': 1e-5, 'dynamic_relax': 1e-8, 'arc_length': 1e-7}
    results_ops = ['newton', 'line_search', 'petsc', 'jax', 'custom', 'arc_length', 'dynamic_relax', 'constrained', 'grad', 'residual', 'tangent', 'forward']
    seq = [str(a) for a in rng.choice(OPS, size=case['len'])]
    for j in range(3):
        seq[1 + 3 * j] = OPS[(case['first'] * 3 + j) % len(OPS)]
    plan, st = [], {'A': [0, 0], 'B': [0, 1]}       # [boundary data, parameters]
    for op in seq:
        X = 'AB'[int(rng.integers(2))]
        a = int(rng.integers(3))
        if op == 'update_bc':
            st[X] = [a % 2, st[X][1]]
        elif op in ('set_params', 'forward', 'grad'):
            st[X] = [st[X][0], a]
        plan.append((op, X, a, tuple(st[X])))
    # ---- what each result must be: private copies of everything, fresh problem, nothing else has happened yet
    expected, arc_info = {}, []
    for op, X, a, s in plan:
        key = (op, s)
        if op not in results_ops or key in expected:
            continue
        priv = lambda o: [np.array(x) for x in o]
        q = {k: v.copy() for k, v in datas[s[1]].items()}
        o = {k: ({kk: vv for kk, vv in copy_opts(v).items()}) for k, v in opts.items()}
        pr = build(mesh_of(m.points.copy(), m.cells.copy()), infos_copy(bcs[s[0]]), (q['k'], q['w']))
        expected[key] = leaves(call(op, pr, o, dict(params=q, cot=priv(cot), field=priv(field), P=None if P is None else P.copy())))
    # ---- the schedule on shared objects
    world = dict(mesh__points=pts, mesh__cells=cells, mesh__object=shared, bc_info__a=bcs[0], bc_info__b=bcs[1], bc_info__surfaces=loc, options=opts, guess__numpy=guess, guess__jax=jguess, params__user=params,
                 params__additional=extra, fields__cot=cot, fields__field=field, fields__infos=[cell_infos, point_infos], mesh__lists=[V, ET, QO, QR], options__P=[] if P is None else P)
    g = Guard(ctx, **world)
    A = build(shared, bcs[0], extra[0])
    B = build(shared, bcs[0], extra[1])
    g.done('building two problems')
    probs = {'A': A, 'B': B}
    kept = []
    last = {}
    for j, (op, X, a, s) in enumerate(plan):
        p = probs[X]
        other = probs['B' if X == 'A' else 'A']
        other.newton_update([jnp.asarray(f) for f in field])
        held = fem.solver_mod.get_A(other)
        held_before = fem.csr(held)
        g = Guard(ctx, **world)
        ctx.event('op_' + op)
        if op == 'rebuild':
            probs[X] = build(shared, bcs[s[0]], (params[s[1]]['k'], params[s[1]]['w']))
        elif op == 'update_bc':
            update_bc(p, bcs[s[0]])
        elif op == 'set_params':
            p.set_params(params[s[1]])
        elif op == 'save':
            import importlib
            U = importlib.import_module('jax_fem.utils')
            U.save_sol(p.fes[0], field[0], os.path.join(ctx.scratch, f'o{j}', 'u.vtu'), cell_infos=cell_infos, point_infos=point_infos)
        else:
            arg = dict(params=params[s[1]], cot=cot, field=field, P=P)
            r = call(op, p, opts, arg)
            g.done(f'{op} on {X} (after {[q[:2] for q in plan[:j]]})')
            want = expected[(op, s)]
            t = TOLS.get(op, 1e-8)
            same(ctx, r, want, 'same_as_isolated', t, f'{op} on {X}, schedule {[q[:2] for q in plan[:j + 1]]}')
            if j and plan[j - 1][1] != X:
                ctx.event('other_problem')
            kept.append((op, r, leaves(r)))
            if rng.random() < .5:
                g = Guard(ctx, **world)
                r2 = call(op, p, opts, arg)
                same(ctx, r2, leaves(r), 'repeat', min(t, 1e-9) if op != 'jax' else 1e-7, f'second {op} on {X}')
                kept.append((op, r2, leaves(r2)))
        g.done(f'{op} on {X}')
        now = fem.csr(held)
        ctx.check(all(np.array_equal(getattr(now, k), getattr(held_before, k)) for k in ('indptr', 'indices', 'data')), 'other_matrix', f'{op} on {X} changed the matrix of the other problem')
    # a third problem: as many nodes, cells and unknowns, the cells in another order
    C3 = m.cells[np.concatenate([rng.permutation(len(cells) - 1), [len(cells) - 1]])]
    C = build(mesh_of(m.points.copy(), C3), bcs[0], extra[0])
    for rep in range(2):
        fem.solver(probs['A'], opts['newton'])
        C.newton_update([jnp.asarray(f) for f in field])
        D = zoo.dense_jacobian(C, field)
        for i, fe in enumerate(C.fes):
            for a, c in zip(fe.node_inds_list, fe.vec_inds_list):
                for k in np.asarray(a) * fe.vec + np.asarray(c) + N * sum(vecs[:i]):
                    D[k] = 0.
                    D[k, k] = 1.
        ctx.close(fem.csr(fem.solver_mod.get_A(C)).toarray(), D, 'third_problem', rtol=1e-10)
    for op, r, c in kept:
        now = leaves(r)
        ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(now, c)), 'results_kept', f'a result of {op} changed after it was returned')
    ctx.event('arc_polished', sum(arc_info))
    # an options dictionary left empty stays empty (defaults are not written into it)
    e1, e2 = {}, {'newton': {}}
    fem.solver(probs['A'], e1)
    fem.solver(probs['A'], e2)
    ctx.check(e1 == {} and e2 == {'newton': {}}, 'defaults_kept', f'{e1} {e2}')


def _bc_dofs(info, m, vecs, N):
    out = []
    for i, v in enumerate(vecs):
        inf = info[i] if len(vecs) > 1 else info
        off = N * sum(vecs[:i])
        for l, c, f in zip(*inf):
            for k in range(N):
                if bool(np.asarray(_loc(l, m, k))):
                    out.append((off + k * v + c, 0.))
    return out


def _loc(l, m, k):
    import jax.numpy as jnp
    try:
        return l(jnp.asarray(m.points[k]), k)
    except TypeError:
        return l(jnp.asarray(m.points[k]))


def copy_opts(o):
    if isinstance(o, dict):
        return {k: copy_opts(v) for k, v in o.items()}
    if isinstance(o, list):
        return [copy_opts(v) for v in o]
    return o.copy() if isinstance(o, np.ndarray) else o


def infos_copy(b):
    return [infos_copy(x) if isinstance(x, list) else x for x in b]


# ---------------------------------------------------------------- single entry points

def twice(ctx, what, f, tol=1e-12, **objs):
    g = Guard(ctx, **objs)
    r1 = f()
    g.done(what)
    c1 = leaves(r1)
    r2 = f()
    g.done(what + ' (repeated)')
    same(ctx, r2, c1, 'repeat', tol, what)
    ctx.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(leaves(r1), c1)), 'results_kept', what)
    return r1


def entry_elements(ctx, case, rng, fem, zoo, meshes):
    jnp = fem.np
    for t in [['QUAD4', 'HEX8', 'TET10'], ['TRI6', 'HEX20', 'TET4']][case['k'] % 2]:
        m = zoo.small_mesh(t, rng, tiny=True)
        pts, cells = m.points.copy(), m.cells.copy()
        twice(ctx, 'Mesh', lambda: [getattr(fem.Mesh(pts, cells, t), k) for k in ('points', 'cells')], mesh__points=pts, mesh__cells=cells)
        mesh = fem.Mesh(pts, cells, t)
        dn, rest = zoo.split_boundary(m, rng, .5)
        bc = zoo.bc_info([(dn, 0, .4), (dn[:1], 1, -1.)])
        loc = [zoo.in_ids(rest), zoo.in_ids(dn)]
        sol = rng.normal(size=(len(pts), 2))
        w = dict(mesh__points=pts, mesh__cells=cells, mesh__object=mesh, bc_info=bc, bc_info__loc=loc, fields=sol)
        g = Guard(ctx, **w)
        fe = fem.FiniteElement(mesh=mesh, vec=2, dim=m.dim, ele_type=t, dirichlet_bc_info=bc)
        fe2 = fem.FiniteElement(mesh=mesh, vec=2, dim=m.dim, ele_type=t, dirichlet_bc_info=bc)
        g.done('FiniteElement')
        same(ctx, [fe.node_inds_list, fe.vec_inds_list, fe.vals_list], [fe2.node_inds_list, fe2.vec_inds_list, fe2.vals_list], 'repeat', 1e-14, 'FiniteElement')
        twice(ctx, 'get_shape_grads', lambda: fe.get_shape_grads(), **w)
        twice(ctx, 'get_shape_grads', lambda: fe.get_shape_grads(pts), **w)
        inds = twice(ctx, 'get_boundary_conditions_inds', lambda: fe.get_boundary_conditions_inds(loc), **w)
        twice(ctx, 'Dirichlet_boundary_conditions', lambda: fe.Dirichlet_boundary_conditions(bc), **w)
        twice(ctx, 'get_physical_quad_points', lambda: fe.get_physical_quad_points(), **w)
        twice(ctx, 'get_physical_surface_quad_points', lambda: fe.get_physical_surface_quad_points(inds[0]), inds=inds, **w)
        twice(ctx, 'get_face_shape_grads', lambda: fe.get_face_shape_grads(inds[0]), inds=inds, **w)
        twice(ctx, 'convert_from_dof_to_quad', lambda: fe.convert_from_dof_to_quad(sol), **w)
        twice(ctx, 'convert_from_dof_to_face_quad', lambda: fe.convert_from_dof_to_face_quad(sol, inds[0]), inds=inds, **w)
        pr = zoo.make(m, 'lin', None, 2, None, [])
        twice(ctx, 'sol_to_grad', lambda: pr.fes[0].sol_to_grad(sol), **w)
        twice(ctx, 'count_selected_faces', lambda: mesh.count_selected_faces(lambda p: p[0] < float(np.median(pts[:, 0]))), **w)


def entry_generators(ctx, case, rng, fem, zoo, meshes):
    import importlib
    G = importlib.import_module('jax_fem.generate_mesh')

    def mm(x):
        return [x.points] + [c.data for c in x.cells]
    twice(ctx, 'rectangle_mesh', lambda: mm(G.rectangle_mesh(3, 2, 1.5, .7)))
    twice(ctx, 'box_mesh', lambda: mm(G.box_mesh(2, 1, 3, 1., 2., .5)))
    d = os.path.join(ctx.scratch, 'gm')
    t = ['HEX8', 'TET4', 'HEX27', 'TET10'][case['k'] % 4]
    twice(ctx, 'box_mesh_gmsh', lambda: mm(G.box_mesh_gmsh(2, 1, 1, 1., 1., 1., d, ele_type=t)))


def entry_geometry(ctx, case, rng, fem, zoo, meshes):
    jnp = fem.np
    m = zoo.small_mesh(TYPES[case['k'] % 6], rng, distort=.1)
    dn, rest = zoo.split_boundary(m, rng, .5)
    pts2 = [m.points * 1.3 + .2]
    sol = [rng.normal(size=(len(m.points), 1))]
    p = zoo.make(m, 'nl', 'react', 1, [(dn, 0, .2)], [(rest, 'robin')])
    r0 = leaves(p.compute_residual(sol))
    w = dict(mesh=pts2, fields=sol)
    g = Guard(ctx, **w)
    for _ in range(2):
        p.initialize_geometric_quantities(pts2)
        g.done('initialize_geometric_quantities')
        r1 = leaves(p.compute_residual(sol))
        g.done('compute_residual')
        p.initialize_geometric_quantities()
        same(ctx, p.compute_residual(sol), r0, 'repeat', 1e-13, 'back to the stored geometry')
    p.initialize_geometric_quantities(pts2)
    same(ctx, p.compute_residual(sol), r1, 'repeat', 1e-13, 'explicit geometry')


def or_raised(f):
    try:
        return f()
    except (AssertionError, RuntimeError):    # an iterative solver may give up; the arguments must survive that too
        return [np.zeros(1)]


def entry_linear(ctx, case, rng, fem, zoo, meshes):
    jnp = fem.np
    m = zoo.small_mesh(TYPES[case['k'] % 6], rng, distort=.1)
    dn, _ = zoo.split_boundary(m, rng, .4)
    p = zoo.make(m, 'lin', 'react', 1, [(dn, 0, .2)])
    x = [jnp.asarray(rng.normal(size=(len(m.points), 1)))]
    p.newton_update(x)
    A = fem.solver_mod.get_A(p)
    b, x0 = rng.normal(size=len(m.points)), rng.normal(size=len(m.points))
    for o in ({}, {'jax_solver': {}}, {'jax_solver': {'precond': False}}, {'spsolve_solver': {}}, {'petsc_solver': {}}, {'petsc_solver': {'ksp_type': 'bcgsl', 'pc_type': 'none'}},
              {'custom_solver': lambda A, b, x0, o: zoo.dense_solve(A, b)}):
        M0 = fem.csr(A).toarray()
        twice(ctx, f'linear_solver {o}', lambda: or_raised(lambda: fem.solver_mod.linear_solver(A, b, x0, o)), tol=1e-7, options=o, fields__b=b, fields__x0=x0)
        ctx.check(np.array_equal(fem.csr(A).toarray(), M0), 'options', f'linear_solver {o} changed the matrix')
    bvec = [np.array(a) for a in x]
    twice(ctx, 'apply_bc_vec', lambda: fem.solver_mod.apply_bc_vec(b, x0, p, 1.), fields__x0=x0, fields__b=b, guess=bvec)


def entry_periodic(ctx, case, rng, fem, zoo, meshes):
    import importlib
    E = importlib.import_module('applications.periodic_bc.example')
    m = meshes.make('QUAD4', rng, n=[3, 2], size=[1., 1.], distort=0., permute=True)
    P = m.points - m.points.min(0)
    m = meshes.M('QUAD4', P, m.cells)
    jnp = fem.np
    mesh = fem.mk(m)
    a = P[:, 0].max()
    info = [[lambda p: jnp.isclose(p[0], 0., atol=1e-6)], [lambda p: jnp.isclose(p[0], a, atol=1e-6)], [lambda p: p + jnp.array([a, 0.])], [0]]
    twice(ctx, 'periodic_boundary_conditions', lambda: E.periodic_boundary_conditions(info, mesh, 2).toarray(), bc_info=info, mesh=mesh)


def entry_mma(ctx, case, rng, fem, zoo, meshes):
    import importlib
    mma = importlib.import_module('jax_fem.mma')
    m = meshes.make('QUAD4', rng, n=[5, 4], distort=.1)
    fe = zoo.make(m, 'lin', None, 1, None, []).fes[0]
    n = len(m.cells)
    fe.flex_inds = np.arange(n)
    rho = rng.uniform(.3, .6, (n, 1))
    if case['k'] % 2 == 0:
        rho[rng.choice(n, 3, replace=False)] = [[0.], [1.], [0.]]     # void and solid cells
    par = {'movelimit': .15, 'maxIters': 4}
    t = rng.uniform(0, 1, (n, 1))
    gs = [np.zeros((n, 1)), np.zeros((2, n, 1))]

    def obj(r):
        g = 2 * (np.asarray(r) - t) / n
        return float(np.mean((np.asarray(r) - t) ** 2)), fem.np.asarray(g)

    def cons(r, it):
        r = np.asarray(r)
        return fem.np.array([np.mean(r) / .5 - 1., .2 - np.mean(r)]), fem.np.asarray(np.stack([np.full((n, 1), 2. / n), np.full((n, 1), -1. / n)]))
    with fem.captured():
        twice(ctx, 'optimize', lambda: mma.optimize(fe, rho, par, obj, cons, 2), tol=1e-10, params=rho, options=par, fields=t, mesh=[fe.points, fe.cells, fe.flex_inds])


def entry_filter(ctx, case, rng, fem, zoo, meshes):
    import importlib
    mma = importlib.import_module('jax_fem.mma')
    m = meshes.make(['QUAD4', 'TET4'][case['k'] % 2], rng)
    fe = zoo.make(m, 'lin', None, 1, None, []).fes[0]
    fe.flex_inds = np.arange(len(m.cells))
    n = len(m.cells)
    ft = {}
    ft['H'], ft['Hs'] = mma.compute_filter_kd_tree(fe)
    twice(ctx, 'compute_filter_kd_tree', lambda: [a.todense() if hasattr(a, 'todense') else a for a in mma.compute_filter_kd_tree(fe)], mesh=[fe.points, fe.cells, fe.flex_inds])
    rho, dJ, dv = rng.uniform(.1, 1, (n, 1)), rng.normal(size=(n, 1)), rng.normal(size=(2, n, 1))
    twice(ctx, 'applySensitivityFilter', lambda: mma.applySensitivityFilter(ft, rho, dJ, dv), params=rho, fields__dJ=dJ, fields__dv=dv)
    twice(ctx, 'applyDensityFilter', lambda: mma.applyDensityFilter(ft, rho), params=rho)


def entry_plasticity(ctx, case, rng, fem, zoo, meshes):
    import importlib
    M = importlib.import_module('applications.finite_plasticity.model')
    m = meshes.make('HEX8', rng, n=[1, 1, 2])
    p = M.Plasticity(fem.mk(m), vec=3, dim=3, ele_type='HEX8')
    p2 = M.Plasticity(fem.mk(m), vec=3, dim=3, ele_type='HEX8')
    u = rng.normal(size=(len(m.points), 3)) * .02
    iv = p.internal_vars
    w = dict(params=iv, fields=u)
    r = twice(ctx, 'update_int_vars_gp', lambda: p.update_int_vars_gp(u, iv), **w)
    s = twice(ctx, 'compute_stress', lambda: p.compute_stress(u, iv), **w)
    p.internal_vars = r
    p.update_int_vars_gp(u * 2., r)
    g = Guard(ctx, **w)
    same(ctx, p2.compute_stress(u, p2.internal_vars), s, 'same_as_isolated', 1e-12, 'compute_stress of another problem')
    same(ctx, p2.update_int_vars_gp(u, p2.internal_vars), r, 'same_as_isolated', 1e-12, 'update_int_vars_gp of another problem')
    g.done('another problem')
