import numpy as np
from ..refelem import ref

PROPERTY = 'C11'
RULE = ('one case = an assembled sparse system (any element, vector fields, advection, Robin faces, coupled variables, rescaled or transposed) given to '
        'every available backend, or a problem solved and differentiated with recording user-supplied solvers, or with every backend in turn. '
        'Non-trivial: at least two backends returned and their true residual was measured, or a recorded solve was compared with the monitor\'s own matrix.')
REQUIRED = ['jax_residual', 'jax_noprec_residual', 'spsolve_residual', 'petsc_default_residual', 'petsc_lu_residual', 'petsc_none_residual', 'inputs_unchanged', 'transposed',
            'nonsymmetric', 'multi_variable', 'x0_used', 'custom_matrix', 'custom_rhs', 'custom_x0', 'custom_options', 'custom_return_used', 'adjoint_matrix', 'adjoint_rhs',
            'adjoint_return_used', 'forward_agree', 'gradient_agree', 'raises_unsolved']
TYPES = ['QUAD4', 'TRI3', 'HEX8', 'TRI6', 'TET4', 'QUAD8']


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'direct', 'type': TYPES[k % 6], 'what': ['adv', 'elast', 'multi', 'nl', 'aniso'][k % 5]} for k in range(10 if q else 80)]
    out += [{'kind': 'custom', 'type': TYPES[k % 6], 'what': ['nl', 'multi', 'neo', 'multi3', 'aniso'][k % 5]} for k in range(7 if q else 40)]
    out += [{'kind': 'agree', 'type': TYPES[k % 6], 'what': ['nl', 'aniso', 'elast', 'multi'][k % 4]} for k in range(4 if q else 24)]
    out += [{'kind': 'unsolved', 'type': TYPES[k % 4]} for k in range(2 if q else 8)]
    return out


def problem(case, rng, fem, zoo, m, param=False):
    """-> problem, bcs per variable, vecs"""
    jnp, w = fem.np, case['what']
    dn, rest = zoo.split_boundary(m, rng, .4)
    if len(dn) == len(m.points):
        dn = dn[:max(1, len(dn) // 2)]
    if w == 'multi3':
        vecs = [1, m.dim, 2]
        bcs = [[(dn[:2], 0, float(rng.normal()))], [(dn, c, float(rng.normal())) for c in range(m.dim)], [(dn[-1:], c, float(rng.normal())) for c in range(2)]]

        def form3(us, gs, x, *k):
            k = k[0] if k else 1.
            return [us[0] + .3 * jnp.sum(us[2]), us[1] * 2. + gs[0][0], us[2] - .5 * us[0] - x[:2]], [k * gs[0], k * gs[1] * (1 + us[0][0] ** 2), k * gs[2] * 1.5]
        return zoo.make_multi([m, m, m], vecs, form3, [], bcs, order=2, cls_extra=PAR if param else None), bcs, vecs
    if w == 'multi':
        vecs = [m.dim, 1]
        bcs = [[(dn, c, float(rng.normal())) for c in range(m.dim)], [(dn[:1], 0, .3)]]
        fl = zoo.flux_law('elast', m.dim)

        def form(us, gs, x, *k):
            k = k[0] if k else 1.
            return [us[0] * 0. + gs[1][0] * .5, us[1] * 2. + jnp.trace(gs[0])[None] * .7 - x[:1]], [k * fl(gs[0]), k * gs[1] * (1 + us[1][0] ** 2)]
        p = zoo.make_multi([m, m], vecs, form, [], bcs, order=2, cls_extra=PAR if param else None, ivs=[np.ones((len(m.cells), 1))] if False else None)
        return p, bcs, vecs
    vec = m.dim if w in ('elast', 'neo') else (1 if w == 'adv' else 2)
    a = .03 if w == 'neo' else 1.
    bcs = [(dn, c, float(rng.normal() * a)) for c in range(vec)]
    if w == 'adv':
        beta = jnp.asarray(rng.normal(size=m.dim) * 4)
        p = zoo.make_multi([m], [1], lambda us, gs, x, *k: ([us[0] * .2 + gs[0] @ beta - jnp.sin(x[:1])], [(k[0] if k else 1.) * gs[0]]), [], [bcs], order=2,
                           cls_extra=PAR if param else None)
        return p, [bcs], [1]
    p = zoo.make(m, w, None if w == 'neo' else 'react', vec, bcs, [(rest, 'robin')] if w in ('aniso', 'nl') else (), cls_extra=PAR if param else None)
    return p, [bcs], [vec]


def _set(self, q):
    self.internal_vars = [q]


def _init(self):
    from ..fem import np as jnp
    self.internal_vars = [jnp.ones((self.fes[0].num_cells, self.fes[0].num_quads))]


PAR = {'set_params': _set, 'custom_init': _init}


def info(case, rng, bcs, vecs, m, zoo):
    offs = np.concatenate([[0], np.cumsum([len(m.points) * v for v in vecs])])
    split = lambda x: [x[offs[i]:offs[i + 1]].reshape(-1, vecs[i]) for i in range(len(vecs))]
    bcd = [d for i, b in enumerate(bcs) for d in zoo.bc_dofs(b, m.points, vecs[i], offs[i])]
    return int(offs[-1]), split, bcd


def tangent(p, x, split, bcd, zoo):
    A = zoo.dense_jacobian(p, split(x))
    for k, _ in bcd:
        A[k] = 0.
        A[k, k] = 1.
    return A


def run_case(ctx, case):
    from .. import fem, zoo, meshes
    rng = np.random.default_rng(case['seed'])
    globals()[case['kind']](ctx, case, rng, fem, zoo, meshes)


BACK = {'jax': {'jax_solver': {}}, 'jax_default': {}, 'jax_noprec': {'jax_solver': {'precond': False}}, 'spsolve': {'spsolve_solver': {}}, 'petsc_default': {'petsc_solver': {}},
        'petsc_gj': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}, 'petsc_none': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'none'}},
        'petsc_lu': {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}}, 'petsc_lu2': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'lu'}}}
# allowed residual relative to |b| (iterative PETSc methods stop at 1e-5 of the *preconditioned* residual)
RTOL = {'jax': 1e-6, 'jax_default': 1e-6, 'jax_noprec': 1e-6, 'spsolve': 1e-9, 'petsc_default': 3e-2, 'petsc_gj': 3e-2, 'petsc_none': 1.1e-5, 'petsc_lu': 1e-9, 'petsc_lu2': 1e-9}


def direct(ctx, case, rng, fem, zoo, meshes):
    import copy
    jnp = fem.np
    m = meshes.make(case['type'], rng, n=rng.integers(1, 4, size=ref(case['type']).dim), distort=.15)
    p, bcs, vecs = problem(case, rng, fem, zoo, m)
    n, split, bcd = info(case, rng, bcs, vecs, m, zoo)
    sol = [jnp.asarray(rng.normal(size=s.shape) * .3) for s in split(np.zeros(n))]
    p.newton_update(sol)
    from petsc4py import PETSc
    ctx.event('multi_variable', int(len(vecs) > 1))
    for variant in ('plain', 'transposed', 'scaled'):
        A = fem.solver_mod.get_A(p)
        if variant == 'transposed':
            T = PETSc.Mat()
            A.transpose(T)
            A = T
            ctx.event('transposed')
        s = 1.
        if variant == 'scaled':
            A = A.copy()
            s = float(10. ** rng.uniform(-3, 5))
            A.scale(s)
        D = fem.csr(A).toarray()
        if not np.allclose(D, D.T):
            ctx.event('nonsymmetric')
        b = jnp.asarray(rng.normal(size=n) * float(10. ** rng.uniform(-1, 2)) * s)
        x0s = [None, jnp.zeros(n), jnp.asarray(rng.normal(size=n))]
        sols = {}
        for name in BACK:
            o = copy.deepcopy(BACK[name])
            oc = copy.deepcopy(o)
            x0 = x0s[rng.integers(3)]
            x0c = None if x0 is None else np.array(x0)
            bc_ = np.array(b)
            try:
                x = np.asarray(fem.solver_mod.linear_solver(A, b, x0, o))
            except AssertionError:
                # an iterative backend that did not converge says so
                ctx.event(name + '_raised')
                x = None
                if name in ('spsolve', 'petsc_lu', 'petsc_lu2'):
                    ctx.fail(name + '_residual', 'raised on a nonsingular system')
            ctx.check(np.array_equal(fem.csr(A).toarray(), D) and np.array_equal(bc_, np.asarray(b)) and o == oc and (x0 is None or np.array_equal(x0c, np.asarray(x0))),
                      'inputs_unchanged', f'{name}: matrix, right-hand side, start vector or options changed (options now {o})')
            if x is None:
                continue
            sols[name] = x
            r = np.linalg.norm(D @ x - bc_) if x.shape == (n,) else np.inf
            lim = RTOL[name] * np.linalg.norm(bc_)
            if name in ('petsc_default', 'petsc_gj'):
                lim = min(lim, .1 * (1 + 1e-6))
            ctx.check(r <= lim, name + '_residual', f'{name} ({variant}, n={n}): |Ax-b| = {r:.3e}, allowed {lim:.3e}, |b| = {np.linalg.norm(bc_):.3e}')
        # started at the solution, the JAX solver stays there
        if 'jax' in sols:
            xs = np.linalg.solve(D, np.asarray(b))
            x = np.asarray(fem.solver_mod.linear_solver(A, b, jnp.asarray(xs), {'jax_solver': {}}))
            ctx.check(np.linalg.norm(D @ x - np.asarray(b)) <= 1e-6 * np.linalg.norm(b), 'x0_used')


def custom(ctx, case, rng, fem, zoo, meshes):
    jnp = fem.np
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    p, bcs, vecs = problem(case, rng, fem, zoo, m, param=True)
    n, split, bcd = info(case, rng, bcs, vecs, m, zoo)
    h = min(np.linalg.norm(np.diff(m.points[c], axis=0), axis=1).min() for c in m.cells)
    g = rng.normal(size=n) * (.02 * h if case['what'] == 'neo' else .4)
    q = jnp.asarray(1. + .2 * rng.random(np.asarray(p.internal_vars[0]).shape))
    p.set_params(q)
    # a slightly wrong solver: what it returns must be exactly what is added
    out = []

    def sloppy(A, b):
        x = zoo.dense_solve(A, b) * (1 + 1e-3 * rng.normal(size=n))
        for k, v in bcd:
            x[k] *= 1.02
        out.append(x.copy())
        return x if rng.random() < .5 else jnp.asarray(x)
    rec = zoo.Recorder(fn=sloppy, limit=100)
    lin = {'custom_solver': rec, 'my_option': {'a': 1}}
    guess = rng.random() < .6
    cfg = {'linear': lin, 'tol': 1e-8, 'rel_tol': 1e-9}
    if guess:
        cfg['initial_guess'] = [jnp.asarray(s) for s in split(g)]
    wrap = rng.random() < .5
    x = fem.flat(fem.ad_wrapper(p, {'newton': cfg}, {})(q) if wrap else fem.solver(p, {'newton': cfg}))
    p.set_params(q)
    y = g.copy() if guess else np.zeros(n)
    for k, c in enumerate(rec.calls):
        if k < 6:
            D = tangent(p, y, split, bcd, zoo)
            ctx.close(c['A'].toarray(), D, 'custom_matrix', rtol=1e-9)
            ctx.close(c['b'], -zoo.full_residual(p, y, bcd, split), 'custom_rhs', atol=1e-10 * max(1, np.linalg.norm(rec.calls[0]['b'])))
        x0 = c['x0']
        if ctx.check(x0 is not None and x0.shape == (n,), 'custom_x0', 'no starting vector'):
            ctx.close(x0[[k for k, _ in bcd]], [v - y[k] for k, v in bcd], 'custom_x0', atol=1e-12 * (1 + np.abs(y).max()))
        ctx.check(c['opts'].get('custom_solver') is rec and c['opts'].get('my_option') == {'a': 1}, 'custom_options', str(c['opts']))
        y = y + c['x']
    ctx.check(len(rec.calls) > 0, 'custom_return_used', 'never called')
    ctx.close(x, y, 'custom_return_used', atol=1e-12 * (1 + np.abs(y).max()))
    # adjoint
    w = [jnp.asarray(s) for s in split(rng.normal(size=n))]
    res = {}
    for f in (1., 2., 'noise'):
        pert = rng.normal(size=n)
        ar = zoo.Recorder(fn=(lambda A, b: f * zoo.dense_solve(A, b)) if f != 'noise' else (lambda A, b: pert))
        ao = {'custom_solver': ar, 'tag': 5}
        fwd = fem.ad_wrapper(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9, 'initial_guess': [jnp.asarray(s) for s in split(x)]}}, ao)
        sol, vjp = fem.jax.vjp(fwd, q)
        xs = fem.flat(sol)
        gr = np.asarray(vjp(w)[0])
        if ctx.check(len(ar.calls) == 1, 'adjoint_matrix', f'{len(ar.calls)} adjoint solves'):
            c = ar.calls[0]
            ctx.close(c['A'].toarray(), tangent(p, xs, split, bcd, zoo).T, 'adjoint_matrix', rtol=1e-9)
            ctx.close(c['b'], fem.flat(w), 'adjoint_rhs', rtol=1e-13)
            ctx.check(c['x0'] is None, 'adjoint_rhs', 'start vector for the adjoint')
            ctx.check(c['opts'].get('tag') == 5, 'custom_options')
        res[f] = gr
        if f == 'noise':
            def cres(k):
                p.set_params(k)
                r = fem.jax.flatten_util.ravel_pytree(p.compute_residual([jnp.asarray(s) for s in split(xs)]))[0]
                return jnp.where(jnp.asarray(np.isin(np.arange(n), [k for k, _ in bcd])), 0., r) @ pert
            want = -np.asarray(fem.jax.grad(cres)(q))
            p.set_params(q)
            ctx.close(gr, want, 'adjoint_return_used', rtol=1e-9, atol=1e-12)
    ctx.close(res[2.], 2 * res[1.], 'adjoint_return_used', rtol=1e-6, atol=1e-10)


def agree(ctx, case, rng, fem, zoo, meshes):
    jnp = fem.np
    m = meshes.make(case['type'], rng, n=np.array([3, 2, 2][:ref(case['type']).dim]), distort=.1)
    p, bcs, vecs = problem(case, rng, fem, zoo, m, param=True)
    n, split, bcd = info(case, rng, bcs, vecs, m, zoo)
    q = jnp.asarray(1. + .2 * rng.random(np.asarray(p.internal_vars[0]).shape))
    w = jnp.asarray(rng.normal(size=n))

    def both(f, a):
        fwd = fem.ad_wrapper(p, {'newton': {'linear': BACK[f], 'tol': 1e-8, 'rel_tol': 1e-10}}, BACK[a])
        J = lambda k: jnp.sum(w * fem.jax.flatten_util.ravel_pytree(fwd(k))[0] ** 2)
        x = fem.flat(fwd(q))
        return x, np.asarray(fem.jax.grad(J)(q))
    x0, g0 = both('spsolve', 'spsolve')
    for f, a in (('jax', 'jax'), ('jax_noprec', 'jax_noprec'), ('petsc_default', 'petsc_lu'), ('petsc_lu', 'petsc_lu2'), ('petsc_none', 'spsolve'), ('spsolve', 'petsc_none'), ('spsolve', 'petsc_default')):
        try:
            x, g = both(f, a)
        except AssertionError:
            ctx.event('raised_' + f)
            continue
        ctx.close(x, x0, 'forward_agree', rtol=1e-6)
        ctx.close(g, g0, 'gradient_agree', rtol=2e-2 if a == 'petsc_default' else (1e-3 if a == 'petsc_none' else 1e-5))


def unsolved(ctx, case, rng, fem, zoo, meshes):
    """Inconsistent singular systems have no solution: a checking backend must not return one."""
    jnp = fem.np
    m = meshes.make(case['type'], rng, n=np.array([2, 2, 1][:ref(case['type']).dim]))
    p = zoo.make(m, 'lin', None, 1, None)       # pure Neumann: constants in the kernel
    n = len(m.points)
    p.newton_update([jnp.zeros((n, 1))])
    A = fem.solver_mod.get_A(p)
    b = jnp.asarray(100. + rng.random(n))
    for name in ('jax', 'jax_noprec', 'petsc_gj', 'petsc_none', 'petsc_default'):
        ctx.raises(lambda: fem.solver_mod.linear_solver(A, b, None, BACK[name]), 'raises_unsolved')
    p2 = zoo.make(m, 'lin', None, 1, None, cls_extra={'get_mass_map': lambda self: (lambda u, x: jnp.full(1, -1e4))})
    for name in ('jax', 'petsc_gj'):
        ctx.raises(lambda: fem.solver(p2, {'newton': {'linear': BACK[name]}}), 'raises_unsolved')
