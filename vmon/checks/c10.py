import numpy as np
from ..refelem import ref

PROPERTY = 'C10'
RULE = ('one case = one problem solved under a group of option spellings that are documented to mean the same; a recording/damping linear solver makes '
        'tolerances, start vector, step choice and options observable, results inside a group must be identical and results across groups '
        'distinguishable. Arc-length cases run long enough to see the default step sizes, the switch step and the step limits; reject cases '
        'feed malformed configurations. Non-trivial: at least two spellings of the same meaning were executed and compared.')
REQUIRED = ['same_result', 'default_tol', 'default_rel_tol', 'explicit_tol', 'explicit_rel_tol', 'default_guess', 'guess_used', 'line_search_default', 'distinguishable',
            'backend_default', 'flat_custom', 'custom_options', 'wrapper_same', 'arc_defaults', 'arc_late_step', 'arc_max_steps', 'dr_defaults',
            'reject_two_methods', 'reject_not_dict', 'reject_arc', 'adjoint_default']
TYPES = ['QUAD4', 'TRI3', 'HEX8', 'TRI6', 'TET4', 'QUAD8']


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'arc_long', 'control': c} for c in ('displacement', 'force')]
    out += [{'kind': 'tol', 'type': TYPES[k % 6], 'load': float(10. ** rng.uniform(-3, 7)), 'tol': float(10. ** rng.uniform(-6, 0)),
             'rel': float(10. ** rng.uniform(-7, -2))} for k in range(6 if q else 40)]
    out += [{'kind': 'spell', 'type': TYPES[k % 6], 'flux': ['nl', 'lin', 'neo', 'aniso'][k % 4]} for k in range(5 if q else 30)]
    out += [{'kind': 'backend', 'type': TYPES[k % 4], 'flux': ['aniso', 'nl'][k % 2]} for k in range(3 if q else 15)]
    out += [{'kind': 'arc', 'control': ['displacement', 'force'][k % 2], 'type': TYPES[k % 3]} for k in range(2 if q else 10)]
    out += [{'kind': 'dr', 'type': TYPES[k % 3]} for k in range(2 if q else 8)]
    out += [{'kind': 'reject', 'type': TYPES[k % 6]} for k in range(2 if q else 6)]
    return out


def run_case(ctx, case):
    from .. import fem, zoo, meshes
    rng = np.random.default_rng(case['seed'])
    globals()[case['kind']](ctx, case, rng, fem, zoo, meshes)


def mesh(case, rng, zoo):
    return zoo.small_mesh(case.get('type', 'QUAD4'), rng, distort=.1)


def pinned(m, rng, zoo, vec, a=.3):
    dn, rest = zoo.split_boundary(m, rng, .4)
    if len(dn) == len(m.points):
        dn = dn[:len(dn) // 2]
    return [(dn, c, float(rng.normal() * a)) for c in range(vec)]


def tol(ctx, case, rng, fem, zoo, meshes):
    """A damped linear solver halves the residual of a linear problem at every correction: tolerances become visible to a factor 2."""
    m = mesh(case, rng, zoo)
    bcs = pinned(m, rng, zoo, 1)
    L = case['load']
    p = zoo.make(m, 'lin', None, 1, [(bcs[0][0], 0, lambda x: L * (x[0] + .3))])
    bcd = zoo.bc_dofs([(bcs[0][0], 0, lambda x: L * (x[0] + .3))], m.points, 1)
    split = lambda x: [x.reshape(-1, 1)]
    r0 = np.linalg.norm(zoo.full_residual(p, np.zeros(len(m.points)), bcd, split))

    def run(cfg, flat=False):
        rec = zoo.Recorder(fn=lambda A, b: .5 * zoo.dense_solve(A, b), limit=120)
        if flat:
            o = dict(cfg, custom_solver=rec)
        else:
            o = {'newton': dict(cfg, linear={'custom_solver': rec})}
        x = fem.flat(fem.solver(p, o))
        return x, len(rec.calls)

    def want(t, r):
        k, v = 0, r0
        lim = max(t, r * r0)
        while v > lim:
            v *= .5
            k += 1
        near = abs(np.log2(v / lim)) < 1e-6 or abs(np.log2(2 * v / lim)) < 1e-6   # a tie at the boundary
        return k, near
    for cfg, name, t, r in (({}, None, 1e-6, 1e-8), ({'tol': case['tol']}, 'explicit_tol', case['tol'], 1e-8), ({'rel_tol': case['rel']}, 'explicit_rel_tol', 1e-6, case['rel']),
                            ({'tol': case['tol'], 'rel_tol': case['rel']}, 'explicit_tol', case['tol'], case['rel']),
                            ({'tol': 0., 'rel_tol': case['rel']}, 'explicit_tol', 0., case['rel']), ({'tol': 0, 'rel_tol': 1e-3}, 'explicit_tol', 0., 1e-3),
                            ({'tol': case['tol'], 'rel_tol': 0.}, 'explicit_rel_tol', case['tol'], 0.), ({'tol': 1e-4 * r0, 'rel_tol': 0}, 'explicit_rel_tol', 1e-4 * r0, 0.)):
        k, near = want(t, r)
        if near:
            continue
        for fl in (False, True):
            x, n = run(cfg, fl)
            nm = name or ('default_tol' if t >= r * r0 else 'default_rel_tol')
            ctx.check(n == k, nm, f'{n} damped corrections instead of {k} (initial residual {r0:.3g}, options {cfg}, flat {fl})')
            ctx.event('flat_custom' if fl else 'nested_custom')
    xa, na = run({}), run({'tol': 1e-6, 'rel_tol': 1e-8})
    ctx.check(np.array_equal(xa[0], na[0]), 'same_result', 'explicit defaults')


def spell(ctx, case, rng, fem, zoo, meshes):
    m = mesh(case, rng, zoo)
    vec = m.dim if case['flux'] == 'neo' else 2
    bcs = pinned(m, rng, zoo, vec, .03 if case['flux'] == 'neo' else .5)
    p = zoo.make(m, case['flux'], None if case['flux'] == 'neo' else 'nlreact', vec, bcs)
    jnp = fem.np
    h = min(np.linalg.norm(np.diff(m.points[c], axis=0), axis=1).min() for c in m.cells)
    g = rng.normal(size=(len(m.points), vec)) * (.03 * h if case['flux'] == 'neo' else 3.)
    guess = [jnp.asarray(g)]

    def rec_run(opts):
        rec = zoo.Recorder()
        o = opts(rec)
        return fem.flat(fem.solver(p, o)), rec
    t, rt = float(10. ** rng.uniform(-7, -2)), float(10. ** rng.uniform(-8, -3))
    for ls in (True, False):
        groups = [lambda r: {'newton': {'tol': t, 'rel_tol': rt, 'line_search_flag': ls, 'initial_guess': guess, 'linear': {'custom_solver': r}}},
                  lambda r: {'tol': t, 'rel_tol': rt, 'line_search_flag': ls, 'initial_guess': guess, 'custom_solver': r}]
        if not ls:
            groups += [lambda r: {'newton': {'tol': t, 'rel_tol': rt, 'initial_guess': guess, 'linear': {'custom_solver': r, 'user_key': 7}}},
                       lambda r: {'custom_solver': r, 'tol': t, 'initial_guess': guess, 'rel_tol': rt}]
        out = [rec_run(f) for f in groups]
        for x, r in out[1:]:
            ctx.check(np.array_equal(x, out[0][0]) and len(r.calls) == len(out[0][1].calls), 'same_result', f'line search {ls}')
            ctx.check(all(np.array_equal(a['b'], b['b']) and np.array_equal(a['x0'], b['x0']) for a, b in zip(r.calls, out[0][1].calls)), 'same_result', 'different corrections')
        if not ls:
            for x, r in out:
                ctx.check(all(c['opts']['custom_solver'] is r for c in r.calls), 'custom_options')
            ctx.check(all(c['opts'].get('user_key') == 7 for c in out[2][1].calls), 'custom_options', 'user key lost')
    # the guess is really used (first right-hand side is its residual), and omitted means zero
    bcd = zoo.bc_dofs(bcs, m.points, vec)
    split = lambda x: [x.reshape(-1, vec)]
    if out[0][1].calls:
        ctx.close(out[0][1].calls[0]['b'], -zoo.full_residual(p, g.reshape(-1), bcd, split), 'guess_used', atol=1e-9)
    zero = [jnp.zeros((len(m.points), vec))]
    res = [rec_run(f) for f in (lambda r: {'newton': {'linear': {'custom_solver': r}}}, lambda r: {'custom_solver': r},
                                lambda r: {'newton': {'initial_guess': zero, 'line_search_flag': False, 'tol': 1e-6, 'rel_tol': 1e-8, 'linear': {'custom_solver': r}}},
                                lambda r: {'initial_guess': zero, 'custom_solver': r})]
    for x, r in res:
        ctx.check(np.array_equal(x, res[0][0]), 'default_guess', 'omitted guess is not zero')
        if r.calls:
            ctx.close(r.calls[0]['b'], -zoo.full_residual(p, 0 * g.reshape(-1), bcd, split), 'default_guess', atol=1e-9)
    ctx.check(len({len(r.calls) for _, r in res}) == 1, 'line_search_default')
    # same layouts through the differentiable wrapper
    p.set_params = lambda q: None
    rec = zoo.Recorder()
    for o in ({'newton': {'linear': {'custom_solver': rec}}}, {'custom_solver': rec}):
        x = fem.flat(fem.ad_wrapper(p, o, {})(jnp.zeros(1)))
        ctx.check(np.array_equal(x, res[0][0]), 'wrapper_same')


def backend(ctx, case, rng, fem, zoo, meshes):
    jnp = fem.np
    m = meshes.make(case['type'], rng, n=np.array([4, 4, 3][:ref(case['type']).dim]), distort=.2)
    bcs = pinned(m, rng, zoo, 1, 1.)
    p = zoo.make(m, case['flux'], 'f', 1, bcs)
    J = {'precond': True}
    P = {'ksp_type': 'bcgsl', 'pc_type': 'ilu'}
    groups = {
        'jax': [None, {}, {'newton': {}}, {'newton': {'linear': {}}}, {'newton': {'linear': {'jax_solver': {}}}}, {'newton': {'linear': {'jax_solver': J}}},
                {'jax_solver': {}}, {'jax_solver': J}, {'tol': 1e-6}, {'newton': {'rel_tol': 1e-8}}],
        'jax_noprec': [{'newton': {'linear': {'jax_solver': {'precond': False}}}}, {'jax_solver': {'precond': False}}],
        'petsc': [{'newton': {'linear': {'petsc_solver': {}}}}, {'newton': {'linear': {'petsc_solver': P}}}, {'petsc_solver': {}}, {'petsc_solver': dict(P)},
                  {'petsc_solver': {'ksp_type': 'bcgsl'}}, {'petsc_solver': {'pc_type': 'ilu'}}],
        'petsc2': [{'newton': {'linear': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}],
        'petsc3': [{'newton': {'linear': {'petsc_solver': {'ksp_type': 'gmres'}}}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'ilu'}}],
        'petsc4': [{'newton': {'linear': {'petsc_solver': {'pc_type': 'jacobi'}}}}, {'petsc_solver': {'ksp_type': 'bcgsl', 'pc_type': 'jacobi'}}],
        'spsolve': [{'newton': {'linear': {'spsolve_solver': {}}}}, {'spsolve_solver': {}}],
    }
    rep = {}
    for g, os in groups.items():
        xs = []
        for o in os:
            try:
                xs.append(fem.flat(fem.solver(p) if o is None else fem.solver(p, o)))
            except AssertionError:
                xs.append(None)
        for o, x in zip(os, xs):
            same = (x is None) == (xs[0] is None) and (x is None or np.array_equal(x, xs[0]))
            ctx.check(same, 'backend_default' if g in ('jax', 'petsc') else 'same_result', f'{g}: {o} differs from {os[0]}')
        if xs[0] is not None:
            rep[g] = xs[0]
    keys = sorted(rep)
    for i, a in enumerate(keys):
        for b in keys[:i]:
            # different backends: identical bits would mean that the selection has no effect
            if not np.array_equal(rep[a], rep[b]):
                ctx.event('distinguishable')
            elif {a, b} in ({'jax', 'jax_noprec'}, {'petsc', 'petsc2'}, {'jax', 'petsc'}, {'jax', 'spsolve'}, {'petsc', 'petsc3'}, {'petsc', 'petsc4'}):
                ctx.fail('distinguishable', f'{a} and {b} give bitwise identical fields')
            ctx.close(rep[a], rep[b], 'same_result', rtol=2e-3)
    # adjoint options: {} means the JAX solver with preconditioner
    p.set_params = lambda q: setattr(p, 'internal_vars', [q])
    q = jnp.ones((len(m.cells), p.fes[0].num_quads)) * 1.3
    w = jnp.asarray(rng.normal(size=len(m.points)))
    gr = []
    for ao in ({}, {'jax_solver': {}}, {'jax_solver': {'precond': True}}):
        fwd = fem.ad_wrapper(p, {'spsolve_solver': {}}, ao)
        gr.append(np.asarray(fem.jax.grad(lambda k: jnp.sum(w * fwd(k)[0][:, 0]))(q)))
    ctx.check(all(np.array_equal(g, gr[0]) for g in gr), 'adjoint_default')


def arcprob(case, rng, fem, zoo, meshes, ub=None, load=None):
    """Displacement-driven (ub) or body-load driven (load) problem on a mesh of unit size, plus the auxiliary load problem's vector."""
    t = case.get('type', 'QUAD4')
    m = meshes.make(t, rng, n=np.array([2, 1, 1][:ref(t).dim]), distort=.05)
    jnp = fem.np
    d = m.points @ rng.normal(size=m.dim)
    lo, hi = [int(i) for i in np.argsort(d)[:2]], [int(np.argmax(d))]
    if ub is not None:
        p = zoo.make(m, 'nl' if case.get('nl') else 'lin', None, 1, [(lo, 0, 0.), (hi, 0, ub)])
        return m, p, None
    mass = lambda s: {'get_mass_map': lambda self: (lambda u, x: -s * (jnp.ones(1) + x[:1] ** 2))}
    p = zoo.make(m, 'nl' if case.get('nl') else 'lin', None, 1, [(lo, 0, 0.)], cls_extra=mass(load))
    aux = zoo.make(m, None, None, 1, None, cls_extra=mass(-load))   # counter load, as documented
    q = fem.solver_mod.get_q_vec(aux)
    return m, p, q


def arc(ctx, case, rng, fem, zoo, meshes):
    case = dict(case, nl=True)
    force = case['control'] == 'force'
    m, p, q = arcprob(case, rng, fem, zoo, meshes, ub=None if force else .6, load=.4 if force else None)
    base = {'control': case['control'], **({'q_vec_aux': q} if force else {})}
    full = dict(base, psi=.5 if force else 1., Delta_l=.1, max_continuation_steps=500 if force else 600, linear={'jax_solver': {}}, newton={'tol': 1e-6, 'rel_tol': 1e-8}, return_info=True,
                **({'Delta_l_late': 1., 'Delta_l_switch_step': 200} if force else {}))
    ref_, info = fem.solver(p, {'arc_length': full})
    for drop in ([], ['psi'], ['Delta_l'], ['linear'], ['newton'], ['max_continuation_steps'], ['Delta_l_late', 'Delta_l_switch_step', 'psi', 'Delta_l', 'linear', 'newton', 'max_continuation_steps']):
        o = {k: v for k, v in full.items() if k not in drop}
        s, i2 = fem.solver(p, {'arc_length': o})
        ctx.check(len(i2['history']) == len(info['history']) and all(np.array_equal(a['u'], b['u']) and a['lam'] == b['lam'] for a, b in zip(i2['history'], info['history'])),
                  'arc_defaults', f'omitting {drop} changes the path')
        ctx.check(np.array_equal(fem.flat(s), fem.flat(ref_)), 'arc_defaults', f'omitting {drop} changes the result')
    for k, v in (('psi', .8), ('Delta_l', .07)):
        s, i2 = fem.solver(p, {'arc_length': dict(full, **{k: v})})
        same = len(i2['history']) == len(info['history']) and all(np.array_equal(a['u'], b['u']) for a, b in zip(i2['history'], info['history']))
        ctx.check(not same, 'distinguishable', f'{k} has no effect')
    s = fem.solver(p, {'arc_length': {k: v for k, v in full.items() if k != 'return_info'}})
    ctx.check(isinstance(s, list) and len(s) == 1 and np.array_equal(fem.flat(s), fem.flat(ref_)), 'arc_defaults', 'return_info omitted must return the fields only')
    s = fem.solver(p, {'arc_length': dict(full, return_info=False)})
    ctx.check(isinstance(s, list) and len(s) == 1, 'arc_defaults', 'return_info False')


def arc_long(ctx, case, rng, fem, zoo, meshes):
    """Far away target: the default step lengths and limits become visible."""
    force = case['control'] == 'force'
    m, p, q = arcprob({'type': 'TRI3'}, rng, fem, zoo, meshes, ub=None if force else 1e4, load=1e5 if force else None)
    calls = []
    s, info = fem.solver(p, {'arc_length': {'control': case['control'], 'return_info': True, 'step_callback': lambda k, u, l: calls.append(k), **({'q_vec_aux': q} if force else {})}})
    h = info['history']
    n = 500 if force else 600
    ctx.check(len(h) == n and len(calls) == n and not info['polished'], 'arc_max_steps', f'{len(h)} steps by default')
    fixed = {k for k, _ in zoo.bc_dofs([(list(map(int, np.asarray(a))), 0, 0.) for a in p.fes[0].node_inds_list], m.points, 1)}
    if force:
        qm = np.asarray(q).copy()
        qm[list(fixed)] = 0.
        w = .25 * np.sum(qm ** 2)
    else:
        w = 1. * 1e8
    u0, l0 = 0. * h[0]['u'], 0.
    d = []
    for r in h:
        d.append(np.sqrt(np.sum((r['u'] - u0) ** 2) + w * (r['lam'] - l0) ** 2))
        u0, l0 = r['u'], r['lam']
    want = np.where(np.arange(n) < 200, .1, 1.) if force else np.full(n, .1)
    ctx.close(d, want, 'arc_late_step', rtol=0, atol=1e-5)


def dr(ctx, case, rng, fem, zoo, meshes):
    m = mesh(case, rng, zoo)
    bcs = pinned(m, rng, zoo, 1)
    p = zoo.make(m, 'lin', 'react', 1, bcs)
    jnp = fem.np
    xs = []
    for o in ({'info': False, 'info_force': False}, {'tol': 1e-6, 'info': False, 'info_force': False}, {'tol': 1e-6, 'nKMat': 1000, 'nPrint': 500, 'info': True, 'info_force': True}, {},
              {'linear': {'spsolve_solver': {}}}, {'linear': {}}):
        with fem.captured():
            xs.append(fem.flat(fem.solver(p, {'dynamic_relax': o})))
    ctx.check(all(np.array_equal(x, xs[0]) for x in xs), 'dr_defaults')
    # a guess away from equilibrium makes the default tolerance visible
    g = [jnp.asarray(rng.normal(size=(len(m.points), 1)) * 3)]
    ys = []
    for o in ({}, {'tol': 1e-6}, {'tol': 1e-9}):
        with fem.captured():
            ys.append(fem.flat(fem.solver(p, {'dynamic_relax': dict(o, initial_guess=g, info=False, info_force=False)})))
    ctx.check(np.array_equal(ys[0], ys[1]), 'dr_defaults', 'default tolerance')
    ctx.check(not np.array_equal(ys[0], ys[2]), 'distinguishable', 'tol ignored')


def reject(ctx, case, rng, fem, zoo, meshes):
    m = mesh(case, rng, zoo)
    p = zoo.make(m, 'lin', 'f', 1, pinned(m, rng, zoo, 1))
    p.set_params = lambda q: None
    jnp = fem.np

    def both(o, name):
        ctx.raises(lambda: fem.solver(p, o), name)
        ctx.raises(lambda: fem.ad_wrapper(p, o)(jnp.zeros(1)), name)
    A, D, N = {'control': 'displacement'}, {'tol': 1e-6}, {'tol': 1e-6}
    for o in ({'newton': N, 'arc_length': A}, {'newton': N, 'dynamic_relax': D}, {'arc_length': A, 'dynamic_relax': D}, {'newton': {}, 'arc_length': {}, 'dynamic_relax': {}},
              {'newton': N, 'dynamic_relax': {}, 'petsc_solver': {}}, {'newton': {'linear': {'spsolve_solver': {}}}, 'dynamic_relax': D}, {'newton': {}, 'dynamic_relax': {}},
              {'dynamic_relax': {'linear': {'spsolve_solver': {}}}, 'newton': {'linear': {'jax_solver': {}}, 'tol': 1e-3}}, {'arc_length': dict(A, linear={}), 'newton': {'linear': {}}},
              {'tol': 1e-6, 'newton': {}, 'arc_length': dict(A, newton={'tol': 1e-6})}, {'arc_length': dict(A, newton={}), 'dynamic_relax': {}, 'linear': {}}):
        both(o, 'reject_two_methods')
    for v in (None, [], [('tol', 1e-6)], 'petsc_solver', 1, True, ('linear',), {'tol'}):
        for k in ('newton', 'arc_length', 'dynamic_relax'):
            both({k: v}, 'reject_not_dict')
    for v in ({}, {'return_info': True}, {'control': None}, {'control': 'load'}, {'control': 'Displacement'}, {'control': ''}, {'control': 'force'}, {'control': 'force', 'q_vec_aux': None, 'Delta_l': .1},
              {'Delta_l': .1, 'psi': 1.}):
        both({'arc_length': v}, 'reject_arc')
    x = fem.flat(fem.solver(p, {'newton': N}))
    ctx.check(np.all(np.isfinite(x)), 'same_result', 'problem unusable after rejected configurations')
