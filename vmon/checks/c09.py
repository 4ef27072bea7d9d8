import numpy as np
from ..refelem import ref

PROPERTY = 'C09'
RULE = ('one case = a linear or nonlinear problem solved with random tolerances, initial guess, backend and line-search flag while a recording '
        'linear solver logs every correction; the log is replayed against the residual recomputed by the monitor. Fault cases feed NaN/inf '
        'through loads, boundary values, parameters, guesses or the linear solver. Non-trivial: a solve returned and its log was replayed.')
REQUIRED = ['residual_bound', 'dirichlet_satisfied', 'finite', 'starts_from_guess', 'no_late_stop', 'no_early_stop', 'one_correction_linear', 'iterates_follow',
            'line_search_choice', 'line_search_same_solution', 'raises_non_finite', 'zero_corrections', 'multi_variable', 'nonlinear_iterations', 'overshoot', 'many_corrections']
TYPES = ['QUAD4', 'TRI3', 'TRI6', 'QUAD8', 'HEX8', 'TET4']


def cases(tier, rng):
    out = []
    n = 20 if tier == 'quick' else 80
    for k in range(n):
        out.append({'kind': 'solve', 'type': TYPES[k % len(TYPES)], 'flux': ['lin', 'nl', 'neo', 'aniso', 'elast'][rng.integers(5)],
                    'source': ['f', 'react', 'nlreact'][rng.integers(3)], 'ls': bool(rng.random() < .3), 'multi': bool(k % 7 == 6),
                    'tol': float(10. ** rng.uniform(-9, -1)), 'rel_tol': float(10. ** rng.uniform(-9, -1)),
                    'surf': bool(rng.random() < .5)})
    for k in range(5 if tier == 'quick' else 25):
        out.append({'kind': 'ls', 'type': TYPES[k % len(TYPES)], 'flux': ['nl', 'neo'][k % 2], 'amp': float(rng.uniform(2., 12.))})
    for k in range(4 if tier == 'quick' else 20):
        out.append({'kind': 'over', 'type': TYPES[k % len(TYPES)], 'eps': float(10. ** rng.uniform(-2.5, -1)), 'rel_tol': float(10. ** rng.uniform(-7, -2)),
                    'pow': [3, 5][k % 2]})
    for k in range(3 if tier == 'quick' else 12):
        out.append({'kind': 'slow', 'type': TYPES[k % len(TYPES)], 'pow': [7, 5, 9][k % 3], 'ls': bool(k % 2)})
    for k in range(4 if tier == 'quick' else 20):
        out.append({'kind': 'fault', 'type': TYPES[k % len(TYPES)], 'flux': ['nl', 'lin', 'neo', 'elast'][k % 4]})
    return out


def build(case, rng, m, zoo):
    flux = case['flux']
    vec = m.dim if flux in ('neo', 'elast') else int(rng.integers(1, 3))
    dn, rest = zoo.split_boundary(m, rng, .5)
    a = .05 if flux == 'neo' else .5
    bcs = [(dn, c, float(rng.normal() * a)) for c in range(vec)]
    src = case.get('source', 'f')
    surfs = [(rest, str(rng.choice(['flux', 'robin', 'nlrobin'])))] if case.get('surf') else []
    linear = flux in ('lin', 'aniso', 'elast') and src in ('f', 'react') and not any(k == 'nlrobin' for _, k in surfs)
    if flux == 'neo':
        surfs = []
        src = None if src == 'nlreact' else 'f'
        linear = False
    return vec, bcs, src, surfs, linear


def run_case(ctx, case):
    from .. import fem, zoo
    rng = np.random.default_rng(case['seed'])
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    if case['kind'] == 'fault':
        return fault(ctx, case, rng, m, fem, zoo)
    if case['kind'] == 'slow':
        return slow(ctx, case, rng, m, fem, zoo)
    if case['kind'] == 'over':
        return over(ctx, case, rng, m, fem, zoo)
    vec, bcs, src, surfs, linear = build(case, rng, m, zoo)
    jnp = fem.np
    if case['kind'] == 'ls':
        return line(ctx, case, rng, m, vec, bcs, fem, zoo)
    scale_iv = None
    if case['flux'] == 'neo':
        iv = None
    if case['multi']:
        ctx.event('multi_variable')
        linear = False
        vecs = [vec, 1]
        ms = [m, m]
        fl = zoo.flux_law(case['flux'], m.dim)
        form = lambda us, gs, x: ([us[0] * (1 + .3 * jnp.sum(us[1])), us[1] + us[1] ** 3 * .3 - jnp.cos(x[0])], [fl(gs[0]), gs[1] * 2.])
        allb = [bcs, [(bcs[0][0][:2], 0, .4)]]
        p = zoo.make_multi(ms, vecs, form, [], allb, order=2)
    else:
        ms, vecs, allb = [m], [vec], [bcs]
        kw = {}
        if case['flux'] == 'neo':
            kw['cls_extra'] = {'get_mass_map': lambda self: (lambda u, x: jnp.zeros(vec) + .05)} if src else {}
            src = None
        p = zoo.make(m, case['flux'], src, vec, bcs, surfs, **kw)
    offs = np.concatenate([[0], np.cumsum([len(mm.points) * v for mm, v in zip(ms, vecs)])])
    split = lambda x: [x[offs[i]:offs[i + 1]].reshape(-1, vecs[i]) for i in range(len(ms))]
    bcd = [q for i in range(len(ms)) for q in zoo.bc_dofs(allb[i], ms[i].points, vecs[i], offs[i])]
    n = offs[-1]
    guess = None
    r = rng.random()
    a = .02 if case['flux'] == 'neo' else .3
    if r < .5:
        guess = rng.normal(size=n) * a
        if case['flux'] == 'neo':
            from scipy.spatial.distance import pdist
            guess = rng.normal(size=n) * .02 * pdist(m.points).min()
    rec = zoo.Recorder()
    cfg = {'tol': case['tol'], 'rel_tol': case['rel_tol'], 'line_search_flag': case['ls'], 'linear': {'custom_solver': rec}}
    if guess is not None:
        cfg['initial_guess'] = [jnp.asarray(g) for g in split(guess)]
    drop = [k for k in ('tol', 'rel_tol') if rng.random() < .15]
    for k in drop:
        cfg.pop(k)
    tol, rel = cfg.get('tol', 1e-6), cfg.get('rel_tol', 1e-8)
    sol = fem.solver(p, {'newton': cfg})
    x = fem.flat(sol)
    verify(ctx, p, x, guess if guess is not None else np.zeros(n), tol, rel, bcd, split, rec, case['ls'], linear, zoo)
    if len(rec.calls) >= 2 and not linear:
        ctx.event('nonlinear_iterations')
    # same problem with a built-in backend: same contract (no log)
    opt = {'newton': dict({k: v for k, v in cfg.items() if k != 'linear'}, linear=[{'spsolve_solver': {}}, {'jax_solver': {}}, {'petsc_solver': {}}, {}][rng.integers(4)])}
    try:
        x2 = fem.flat(fem.solver(p, opt))
    except AssertionError:
        # an iterative backend may give up, but only loudly
        if 'petsc_solver' not in opt['newton']['linear']:
            raise
        ctx.event('backend_raised')
        x2 = x
    r0 = np.linalg.norm(zoo.full_residual(p, guess if guess is not None else np.zeros(n), bcd, split))
    bound(ctx, p, x2, r0, tol, rel, bcd, split, zoo)
    # restart from the solution: already converged, no correction, field returned unchanged
    rec3 = zoo.Recorder()
    rN = np.linalg.norm(zoo.full_residual(p, x, bcd, split))
    s3 = fem.solver(p, {'newton': {'tol': max(2 * rN, 1e-12), 'linear': {'custom_solver': rec3}, 'initial_guess': [jnp.asarray(s) for s in split(x)]}})
    ctx.check(len(rec3.calls) == 0, 'zero_corrections', f'{len(rec3.calls)} corrections from a converged guess')
    ctx.check(np.array_equal(fem.flat(s3), x), 'zero_corrections', 'converged guess changed')
    ctx.check([tuple(np.asarray(s).shape) for s in sol] == [s.shape for s in split(x)], 'finite', 'shapes')


def bound(ctx, p, x, r0, tol, rel, bcd, split, zoo):
    ctx.check(np.all(np.isfinite(x)), 'finite')
    r = np.linalg.norm(zoo.full_residual(p, x, bcd, split))
    lim = max(tol, rel * r0)
    ctx.check(r <= lim * (1 + 1e-6) + 1e-14, 'residual_bound', f'residual {r:.3e} > max(tol {tol:.1e}, rel_tol {rel:.1e} * initial {r0:.3e})')
    ctx.check(all(abs(x[k] - v) <= lim * (1 + 1e-6) + 1e-13 for k, v in bcd), 'dirichlet_satisfied')


def verify(ctx, p, x, x0, tol, rel, bcd, split, rec, ls, linear, zoo):
    R = lambda y: zoo.full_residual(p, y, bcd, split)
    r0 = np.linalg.norm(R(x0))
    bound(ctx, p, x, r0, tol, rel, bcd, split, zoo)
    met = lambda r: r <= tol or r <= rel * r0
    y = x0.copy()
    calls = rec.calls
    if calls:
        ctx.close(calls[0]['b'], -R(x0), 'starts_from_guess', atol=1e-10 * max(r0, 1))
    else:
        ctx.check(np.array_equal(x, x0), 'starts_from_guess', 'no correction, but the field is not the guess')
        ctx.check(met(r0 * (1 - 1e-9)), 'no_early_stop', f'no correction at residual {r0}')
    for k, c in enumerate(calls):
        rk = np.linalg.norm(c['b'])
        ctx.check(not met(rk * (1 + 1e-9)), 'no_late_stop', f'correction {k} computed although residual {rk:.3e} (initial {r0:.3e}) already met tol {tol:.1e} / rel_tol {rel:.1e}')
        ctx.close(c['b'], -R(y), 'iterates_follow', atol=1e-9 * max(r0, 1))
        if not ls:
            y = y + c['x']
        else:
            y = follow(ctx, R, y, c['x'], calls[k + 1]['b'] if k + 1 < len(calls) else -R(x))
    if not ls or calls:
        ctx.close(x, y, 'iterates_follow', atol=1e-9 * max(1, np.abs(y).max()))
    ctx.check(met(np.linalg.norm(R(x)) * (1 - 1e-9)), 'no_early_stop')
    if linear and not met(r0) and calls:
        ctx.check(len(calls) == 1, 'one_correction_linear', f'{len(calls)} corrections for a linear problem')


def follow(ctx, R, y, inc, bnext):
    """Which step did the line search take, and was there an avoidable increase?"""
    al = [1., .5, .25, .125]
    ys = [y + a * inc for a in al]
    rs = [R(v) for v in ys]
    nr = np.array([np.linalg.norm(r) for r in rs])
    d = [np.linalg.norm(r + bnext) for r in rs]
    k = int(np.argmin(d))
    got = np.linalg.norm(bnext)
    best = nr[0]
    for i in range(1, 4):
        if nr[i] > best:
            break
        best = nr[i]
    if np.isfinite(best):
        ctx.check(got <= best * (1 + 1e-8) + 1e-12, 'line_search_choice',
                  f'residual {got:.6e} after the step; halving the step gives {nr.tolist()} (current {np.linalg.norm(R(y)):.6e})')
    ctx.check(d[k] <= 1e-7 * max(1., got), 'line_search_choice', 'the step is not a halving of the correction')
    return ys[k]


def line(ctx, case, rng, m, vec, bcs, fem, zoo):
    """A far guess: full steps overshoot."""
    jnp = fem.np
    if case['flux'] == 'neo':
        from scipy.spatial.distance import pdist
        p = zoo.make(m, 'neo', None, vec, bcs, cls_extra={'get_mass_map': lambda self: (lambda u, x: jnp.zeros(vec) + .3)})
        guess = rng.normal(size=(len(m.points), vec)) * .06 * pdist(m.points).min()
    else:
        p = zoo.make(m, 'nl', 'nlreact', vec, bcs)
        guess = rng.normal(size=(len(m.points), vec)) * case['amp']
    bcd = zoo.bc_dofs(bcs, m.points, vec)
    split = lambda x: [x.reshape(-1, vec)]
    rec, rec2 = zoo.Recorder(), zoo.Recorder()
    sol = fem.solver(p, {'newton': {'line_search_flag': True, 'initial_guess': [jnp.asarray(guess)], 'linear': {'custom_solver': rec}, 'tol': 1e-8, 'rel_tol': 1e-16}})
    x = fem.flat(sol)
    verify(ctx, p, x, guess.reshape(-1), 1e-8, 1e-16, bcd, split, rec, True, False, zoo)
    s2 = fem.solver(p, {'newton': {'initial_guess': [jnp.asarray(guess)], 'linear': {'custom_solver': rec2}, 'tol': 1e-9, 'rel_tol': 1e-16}})
    verify(ctx, p, fem.flat(s2), guess.reshape(-1), 1e-9, 1e-16, bcd, split, rec2, False, False, zoo)
    ctx.close(x, fem.flat(s2), 'line_search_same_solution', atol=1e-6)


def over(ctx, case, rng, m, fem, zoo):
    """Weak diffusion and a steep reaction from a zero field: the first full step raises the residual; the relative test still refers to the initial residual."""
    jnp = fem.np
    eps, pw = case['eps'], case['pow']
    dn, rest = zoo.split_boundary(m, rng, .3)
    bcs = [(dn, 0, float(rng.normal() * .1))]
    h = float(np.ptp(m.points))
    p = zoo.make(m, None, None, 1, bcs, cls_extra={'get_tensor_map': lambda self: (lambda g: eps * h ** 2 * g),
                                                   'get_mass_map': lambda self: (lambda u, x: u ** pw - 1. - .3 * jnp.cos(x[0]))})
    n = len(m.points)
    bcd = zoo.bc_dofs(bcs, m.points, 1)
    split = lambda x: [x.reshape(-1, 1)]
    for ls in (False, True):
        rec = zoo.Recorder(limit=200)
        r0 = np.linalg.norm(zoo.full_residual(p, np.zeros(n), bcd, split))
        tol = 1e-9 * r0
        sol = fem.solver(p, {'newton': {'tol': tol, 'rel_tol': case['rel_tol'], 'line_search_flag': ls, 'linear': {'custom_solver': rec}}})
        verify(ctx, p, fem.flat(sol), np.zeros(n), tol, case['rel_tol'], bcd, split, rec, ls, False, zoo)
        if len(rec.calls) > 1 and np.linalg.norm(rec.calls[1]['b']) > 2 * np.linalg.norm(rec.calls[0]['b']):
            ctx.event('overshoot')


def slow(ctx, case, rng, m, fem, zoo):
    """A steep reaction from a far guess: Newton's method is right but needs dozens of corrections."""
    jnp = fem.np
    pw = case['pow']
    dn, rest = zoo.split_boundary(m, rng, .2)
    bcs = [(dn[:2], 0, 1.)]
    p = zoo.make(m, None, None, 1, bcs, cls_extra={'get_tensor_map': lambda self: (lambda g: 1e-3 * g),
                                                   'get_mass_map': lambda self: (lambda u, x: u ** pw - 1. - .3 * jnp.cos(x[0]))})
    n = len(m.points)
    far = {5: 3e3, 7: 2e2, 9: 60.}[pw] * (1 + .2 * rng.random((n, 1)))
    # consistent-mass systems with a steep term stay monotone only with a nearly uniform guess
    bcd = zoo.bc_dofs(bcs, m.points, 1)
    split = lambda x: [x.reshape(-1, 1)]
    rec = zoo.Recorder(limit=300)
    sol = fem.solver(p, {'newton': {'tol': 1e-8, 'rel_tol': 1e-30, 'line_search_flag': case['ls'], 'initial_guess': [jnp.asarray(far)], 'linear': {'custom_solver': rec}}})
    x = fem.flat(sol)
    r = np.linalg.norm(zoo.full_residual(p, x, bcd, split))
    ctx.check(np.all(np.isfinite(x)), 'finite')
    ctx.check(r <= 1e-8 * (1 + 1e-6), 'residual_bound', f'residual {r:.3e} > tol 1e-8 after {len(rec.calls)} corrections')
    for k, c in enumerate(rec.calls):
        ctx.check(np.linalg.norm(c['b']) > 1e-8 * (1 - 1e-6), 'no_late_stop', f'correction {k} computed below tol')
    if len(rec.calls) > 25:
        ctx.event('many_corrections')


def fault(ctx, case, rng, m, fem, zoo):
    """Non-finite data must not come back as a solution."""
    jnp = fem.np
    flux = case['flux']
    vec = m.dim if flux in ('neo', 'elast') else 1
    dn, rest = zoo.split_boundary(m, rng, .4)
    if len(dn) == len(m.points):
        dn = dn[:len(dn) // 2]
    good = [(dn, c, .01 * (c + 1)) for c in range(vec)]
    free = set(range(len(m.points))) - set(dn)
    hit = [k for k, c in enumerate(m.cells) if free & set(int(i) for i in c)]   # cells whose data reach an unconstrained equation
    p = zoo.make(m, flux, None, vec, good, cls_extra={
        'custom_init': lambda self: setattr(self, 'internal_vars', [jnp.ones((self.fes[0].num_cells, self.fes[0].num_quads))]), **zoo.step_budget(200)})
    shp = np.asarray(p.internal_vars[0]).shape
    base = {'spsolve_solver': {}}
    ok = fem.solver(p, {'newton': {'linear': base}})
    ctx.check(np.all(np.isfinite(fem.flat(ok))), 'finite')
    for bad in (np.nan, np.inf):
        for ls in (False, True):
            v = np.ones(shp); v[hit[rng.integers(len(hit))], rng.integers(shp[1])] = bad
            p.internal_vars = [jnp.asarray(v)]
            ctx.raises(lambda: fem.solver(p, {'newton': {'linear': base, 'line_search_flag': ls}}), 'raises_non_finite')
            p.internal_vars = [jnp.ones(shp)]
            p.fes[0].update_Dirichlet_boundary_conditions(zoo.bc_info([(dn, 0, bad)] + good[1:]))
            ctx.raises(lambda: fem.solver(p, {'newton': {'linear': base, 'line_search_flag': ls}}), 'raises_non_finite')
            p.fes[0].update_Dirichlet_boundary_conditions(zoo.bc_info(good))
            g = np.zeros((len(m.points), vec)); g[rng.integers(len(g)), 0] = bad
            ctx.raises(lambda: fem.solver(p, {'newton': {'linear': base, 'line_search_flag': ls, 'initial_guess': [jnp.asarray(g)]}}), 'raises_non_finite')

            def badsolve(A, b, x0, o, state=[0]):
                x = zoo.dense_solve(A, b)
                x[rng.integers(len(x))] = bad
                return x
            ctx.raises(lambda: fem.solver(p, {'newton': {'linear': {'custom_solver': badsolve}, 'line_search_flag': ls}}), 'raises_non_finite')
    if flux == 'neo':
        # inverted elements: log of a negative volume ratio
        g = -2.5 * m.points + m.points.mean(0)
        g[:, 0] *= 3.
        R = np.eye(m.dim); R[0, 0] = -1
        g = m.points @ R.T - m.points
        ctx.raises(lambda: fem.solver(p, {'newton': {'linear': base, 'initial_guess': [jnp.asarray(g)]}}), 'raises_non_finite')
    again = fem.solver(p, {'newton': {'linear': base}})
    ctx.close(fem.flat(again), fem.flat(ok), 'finite', atol=1e-10)
