import numpy as np

PROPERTY = 'C18'
RULE = ('one case = a problem with symmetric stiffness (diffusion, elasticity, reaction, cubic, finite strain, snap-through; one or two variables, tractions, per-point data) solved by '
        'dynamic relaxation with random tolerance, guess, mass-update and printing intervals and predictor backend; the monitor evaluates the force balance and the constraints of '
        'what is returned, the start state (observed with an unreachable-low iteration count: a tolerance the start already meets) and the distance to the equilibrium found by its '
        'own Newton iteration. Non-trivial: relaxation iterations were needed.')
REQUIRED = ['force_balance', 'dirichlet_exact', 'start_predictor', 'start_guess', 'immediate_return', 'newton_solution', 'default_tol', 'multi_variable', 'intervals', 'spelling',
            'finite_strain', 'surface_load', 'iterated', 'repeatable']
TYPES = ['QUAD4', 'TRI3', 'TRI6', 'HEX8', 'TET4', 'QUAD8']


def cases(tier, rng):
    out = []
    for k in range(24 if tier == 'quick' else 160):
        out.append({'type': TYPES[k % 6], 'law': ['lin', 'elast', 'nl', 'react', 'neo', 'snap'][(k // 2) % 6], 'multi': k % 4 == 1, 'guess': k % 3 == 1, 'surf': k % 2 == 0,
                    'nK': [1, 3, 10, 1000][k % 4], 'nP': [1, 7, 500][k % 3], 'linear': ['none', 'spsolve', 'petsc', 'custom'][(k // 3) % 4]})
    return out


def run_case(ctx, case):
    from .. import fem, zoo
    jnp = fem.np
    rng = np.random.default_rng(case['seed'])
    m = zoo.small_mesh(case['type'], rng, distort=.08)
    law, dim, N = case['law'], m.dim, len(m.points)
    vec = dim if law in ('elast', 'neo') else int(rng.integers(1, 3))
    multi = case['multi'] and law not in ('neo',)
    vecs = [vec, 1] if multi else [vec]
    n = N * sum(vecs)
    offs = np.concatenate([[0], np.cumsum([N * v for v in vecs])])
    split = lambda x: [np.asarray(x)[offs[i]:offs[i + 1]].reshape(-1, vecs[i]) for i in range(len(vecs))]
    dn, rest = zoo.split_boundary(m, rng, .45)
    if len(dn) == N:
        dn = dn[:max(dim + 1, N // 2)]
    a = .04 if law == 'neo' else .5
    bcs = [[(dn, c, float(rng.normal() * a)) for c in range(vec)]]
    if multi:
        bcs.append([(dn[:2], 0, .4)])
        ctx.event('multi_variable')
    flux = zoo.flux_law({'lin': 'lin', 'elast': 'elast', 'nl': 'nl', 'react': 'lin', 'neo': 'neo', 'snap': 'lin'}[law], dim)
    w = jnp.asarray(np.linspace(1., .5, vec)) * a
    cpl = .3 if law in ('lin', 'elast', 'react') else 0.
    rep = {'react': lambda u: 1.5 * u, 'nl': lambda u: u + u ** 3, 'snap': lambda u: 6. * (u ** 3 - 1.5 * u ** 2 + .55 * u)}.get(law, lambda u: 0. * u)

    def form(us, gs, x):
        S = [rep(us[0]) - w * (1. + x[0])]
        F = [flux(gs[0])]
        if multi:   # a convex (symmetric) coupling: energy + .5*(1.2 v^2) + c v u_0 with c^2 < 1.2 * 0.4
            S = [S[0] + .4 * us[0] + cpl * jnp.zeros(vec).at[0].set(us[1][0]), 1.2 * us[1] + cpl * us[0][:1] - jnp.cos(x[:1])]
            F.append(gs[1] * 1.5)
        return S, F
    sf, sid = [], []
    if case['surf']:
        tr = jnp.asarray(rng.normal(size=vec) * a * .5)
        sid = [rest]
        sf = [lambda us, gs, x: [-tr * (1. + x[0]) if law in ('elast', 'neo') else .7 * us[0] - tr] + ([None] if multi else [])]
        ctx.event('surface_load')
    order = 3 if case['type'] in ('QUAD8', 'QUAD4', 'HEX8') else 2
    mkp = lambda: zoo.make_multi([m] * len(vecs), vecs, form, sf, bcs, surf_ids=sid, order=order)
    p = mkp()
    if law == 'neo':
        ctx.event('finite_strain')
    bcd = [q for i in range(len(vecs)) for q in zoo.bc_dofs(bcs[i], m.points, vecs[i], offs[i])]
    fixed = np.array([k for k, _ in bcd])
    vals = np.array([v for _, v in bcd])
    free = np.setdiff1d(np.arange(n), fixed)

    def force(x):
        r = zoo.flat_residual(p, split(x)).copy()
        r[fixed] = 0.
        return r
    lin = {}
    rec = zoo.Recorder()
    if case['linear'] == 'spsolve':
        lin = {'linear': {'spsolve_solver': {}}}
    elif case['linear'] == 'petsc':
        lin = {'linear': {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}}}
    elif case['linear'] == 'custom':
        lin = {'linear': {'custom_solver': rec}}
    tol = float(10. ** rng.uniform(-9, -4))
    base = dict(nKMat=case['nK'], nPrint=case['nP'], info=bool(rng.random() < .5), info_force=bool(rng.random() < .5), **lin)
    ctx.event('intervals')
    g = None
    if case['guess']:
        g = [rng.normal(size=(N, v)) * a * .3 for v in vecs]
        base['initial_guess'] = [jnp.asarray(s) for s in g]
    # start state
    A = zoo.dense_jacobian(p, split(np.zeros(n)))
    r = zoo.flat_residual(p, split(np.zeros(n))).copy()
    A[fixed] = 0.
    A[fixed, fixed] = 1.
    r[fixed] = -vals
    pred = np.linalg.solve(A, -r)
    start = fem.flat(fem.solver(p, {'dynamic_relax': dict(base, tol=1e9)}))
    if g is None:
        ctx.close(start, pred, 'start_predictor', rtol=1e-9, atol=1e-12)
        want = start
    else:
        want = np.concatenate([s.reshape(-1) for s in g])
        want[fixed] = vals
        ctx.check(np.array_equal(start, want), 'start_guess', f'starts {np.max(np.abs(start - want)):.3e} away from the guess')
    r0 = np.max(np.abs(force(start)))
    if r0 > 1e-9:
        x1 = fem.flat(fem.solver(p, {'dynamic_relax': dict(base, tol=r0 * (1 + 1e-9))}))
        ctx.check(np.array_equal(x1, start), 'immediate_return', f'the start meets the tolerance but moved by {np.max(np.abs(x1 - start)):.3e}')
        x1 = fem.flat(fem.solver(p, {'dynamic_relax': dict(base, tol=r0 * (1 - 1e-4))}))
        ctx.check(not np.array_equal(x1, start), 'iterated', 'the start misses the tolerance yet is returned')
    runs = [('force_balance', dict(base, tol=tol), tol)]
    if case['nP'] != 1:
        b = dict(base)
        runs.append(('default_tol', b, 1e-6))
    sols = []
    for name, cfg, t in runs:
        sol = fem.solver(p, {'dynamic_relax': cfg})
        x = fem.flat(sol)
        ctx.check([np.asarray(s).shape for s in sol] == [(N, v) for v in vecs], 'spelling', 'shape of the returned fields')
        f = np.max(np.abs(force(x)))
        ctx.check(f <= t * (1 + 1e-9) + 1e-13, name, f'largest free residual {f:.3e}, tolerance {t:.3e}')
        ctx.check(np.max(np.abs(x[fixed] - vals)) <= (0. if g is not None else 1e-13), 'dirichlet_exact', f'{np.max(np.abs(x[fixed] - vals)):.3e}')
        sols.append((x, t))
    x, t = sols[0]
    if law != 'snap':
        y = x.copy()
        for _ in range(30):
            A = zoo.dense_jacobian(p, split(y))
            A[fixed] = 0.
            A[fixed, fixed] = 1.
            f = force(y)
            f[fixed] = y[fixed] - vals
            if np.linalg.norm(f) < 1e-13:
                break
            y = y - np.linalg.solve(A, f)
        Ai = np.linalg.inv(A)
        for x, t in sols:
            ctx.close(x, y, 'newton_solution', rtol=0., atol=3. * t * np.max(np.sum(np.abs(Ai[:, free]), 1)) + 1e-10)
    # same call again, on this problem and on a fresh one
    q = p if rng.random() < .5 else mkp()
    x2 = fem.flat(fem.solver(q, {'dynamic_relax': dict(base, tol=tol)}))
    ctx.close(x2, sols[0][0], 'repeatable', rtol=0., atol=1e-12 + (1e-3 * tol if q is not p else 0.))
