import numpy as np
from ..refelem import ref
from ..core import StepBudgetExceeded

PROPERTY = 'C17'
RULE = ('one case = a displacement- or force-controlled arc-length run (linear, nonlinear, non-monotone snap-through laws, finite strain; one or two variables; random psi, step '
        'lengths, switch step and step limits); an online monitor copies every step as it is announced, an offline monitor replays the history: equilibrium at the recorded load '
        'factor, arc distance, direction, records versus callbacks versus information, polish. Non-trivial: at least two steps were recorded and replayed.')
REQUIRED = ['equilibrium', 'arc_distance', 'forward', 'first_step_forward', 'callback_log', 'history_snapshot', 'info', 'stops_at_target', 'polished_solution', 'not_reached', 'zero_steps', 'polish_backend',
            'displacement', 'force', 'snap', 'psi', 'switch_step', 'multi_variable', 'q_vec', 'exact_limit', 'nonzero_dirichlet_force', 'finite_strain', 'descending_force', 'descending_displacement']
TYPES = ['QUAD4', 'TRI3', 'TRI6', 'HEX8', 'TET4', 'QUAD8']


def cases(tier, rng):
    q = tier == 'quick'
    out = []
    for k in range(24 if q else 160):
        out.append({'type': TYPES[k % 6], 'control': ['displacement', 'force'][k % 2], 'law': ['lin', 'nl', 'snap', 'neo'][(k // 2) % 4], 'multi': k % 8 == 5 or k % 8 == 2,
                    'reach': k % 3 != 2, 'dv': k % 8 == 3, 'psi': float(rng.choice([.3, .5, 1., 2.])) if rng.random() < .7 else None})
    return out


def run_case(ctx, case):
    from .. import fem, zoo
    jnp = fem.np
    rng = np.random.default_rng(case['seed'])
    m = zoo.small_mesh(case['type'], rng, distort=.1)
    N, dim, law = len(m.points), m.dim, case['law']
    force = case['control'] == 'force'
    ctx.event(case['control'])
    multi = case['multi'] and law != 'neo'
    vec = dim if law == 'neo' else 1
    vecs = [vec, 1] if multi else [vec]
    n = N * sum(vecs)
    offs = np.concatenate([[0], np.cumsum([N * v for v in vecs])])
    split = lambda x: [np.asarray(x)[offs[i]:offs[i + 1]].reshape(-1, vecs[i]) for i in range(len(vecs))]
    d = m.points @ rng.normal(size=dim)
    o = np.argsort(d)
    k = dim if law == 'neo' else max(1, N // 4)
    lo, hi = [int(i) for i in o[:k]], [int(i) for i in o[-max(1, k - 1):]]
    if law == 'neo':
        # a whole side held and one side moved
        dn, rest = zoo.split_boundary(m, rng, .3)
        lo = dn if len(dn) < N - dim else dn[:dim + 1]
        hi = [i for i in hi if i not in lo] or [int(i) for i in range(N) if i not in lo][:1]
    flux = zoo.flux_law('neo' if law == 'neo' else ('nl' if law == 'nl' else 'lin'), dim)
    soft = law == 'snap' and not force        # a soft connection to the moved nodes: the path turns back in the load factor
    if soft:
        flux0, cs = flux, float(rng.uniform(.004, .009))
        flux = lambda g: cs * flux0(g)
    amp = float(rng.uniform(.5, 1.5)) * (.08 if law == 'neo' else (8. if soft else 1.))

    def react(u):
        if law == 'snap':
            return 6. * (u ** 3 - 1.5 * u ** 2 + .55 * u)
        return .3 * u + .2 * u ** 3 if law == 'nl' else .3 * u
    load = amp * (1.5 if law != 'snap' else 1.2)
    w = jnp.asarray(np.linspace(1., .6, vec))

    def cell(sgn, with_u):
        def form(us, gs, x):
            f = sgn * load * w * (1. + .3 * x[0] ** 2) if force else jnp.zeros(vec)
            S = [(react(us[0]) if with_u and law != 'neo' else 0.) - f]
            F = [flux(gs[0]) if with_u else None]
            if multi:
                S.append((us[1] + .3 * us[0][:1] if with_u else 0. * us[1]) - (sgn * load * .5 if force else 0.))
                F.append(gs[1] if with_u else None)
            return S, F
        return form
    dval = 0.
    if force and (case['dv'] or rng.random() < .4) and law in ('lin', 'nl'):
        dval = .2
        ctx.event('nonzero_dirichlet_force')
    bcs = [[(lo, c, dval if c == 0 else 0.) for c in range(vec)]] + ([[(lo[:1], 0, 0.)]] if multi else [])
    if not force:
        bcs[0].append((hi, int(rng.integers(vec)), amp))
        if multi:
            bcs[1].append((hi[:1], 0, .7))
            ctx.event('multi_variable')
    elif multi:
        ctx.event('multi_variable')
    ex = zoo.step_budget(20000 if not soft else 3000)
    p = zoo.make_multi([m] * len(vecs), vecs, cell(1., True), [], bcs, order=3 if case['type'] in ('QUAD8', 'QUAD4', 'HEX8') else 2, cls_extra=ex)
    fixed = [q for i, b in enumerate(bcs) for q in zoo.bc_dofs(b, m.points, vecs[i], offs[i])]
    fk = [a for a, _ in fixed]
    ub = np.zeros(n)
    for a, v in fixed:
        ub[a] = v
    cfg = {'control': case['control'], 'return_info': True}
    if force:
        aux = zoo.make_multi([m] * len(vecs), vecs, cell(-1., False), [], None, order=3 if case['type'] in ('QUAD8', 'QUAD4', 'HEX8') else 2)
        q = np.asarray(fem.solver_mod.get_q_vec(aux))
        ctx.close(q, zoo.flat_residual(aux, split(np.zeros(n))), 'q_vec', rtol=1e-13)
        # counter load: its vector is the opposite of the loaded problem's residual at rest
        ctx.close(q, -zoo.flat_residual(p, split(np.zeros(n))), 'q_vec', rtol=1e-9, atol=1e-12)
        qm = q.copy()
        qm[fk] = 0.
        cfg['q_vec_aux'] = jnp.asarray(q) if rng.random() < .5 else q
    S2 = np.sum(qm ** 2) if force else np.sum(ub ** 2)
    psi = case['psi'] if not soft else float(rng.choice([.05, .1]))
    if psi is not None:
        cfg['psi'] = psi
        ctx.event('psi')
    ps = psi if psi is not None else (.5 if force else 1.)

    def equil(u, lam):
        r = zoo.flat_residual(p, split(u))
        if force:
            r = r + (1 - lam) * qm
            r[fk] = u[fk] - ub[fk]
        else:
            r[fk] = u[fk] - lam * ub[fk]
        return r
    # a first guess at the path's length, from the linearised problem, sets the step length
    A = zoo.dense_jacobian(p, split(np.zeros(n)))
    rhs = np.zeros(n) if not force else qm.copy()
    for a, v in fixed:
        A[a] = 0.; A[a, a] = 1.; rhs[a] = 0. if force else v
    ut = np.linalg.solve(A, rhs)
    L = np.sqrt(np.sum(ut ** 2) + ps ** 2 * S2)
    steps = int(rng.integers(5, 9)) if law != 'snap' else (14 if not soft else 30)
    dl = L / steps * (1. if law != 'snap' else .6)
    cfg['Delta_l'] = float(dl)
    dls = lambda k: dl
    if force:
        sw = int(rng.integers(1, 5))
        late = dl * float(rng.uniform(.6, 1.5))
        cfg.update(Delta_l_late=float(late), Delta_l_switch_step=sw)
        dls = lambda k: dl if k < sw else late
    lim = (60 if not soft else 150) if case['reach'] or soft else int(rng.integers(1, 4))
    cfg['max_continuation_steps'] = lim
    log = []
    cfg['step_callback'] = lambda s, u, lam: log.append((s, np.array(u, copy=True), float(lam)))
    rec = zoo.Recorder()
    ntol = float(10. ** rng.uniform(-11, -7))
    cfg['newton'] = {'tol': ntol, 'rel_tol': 1e-14}
    cfg['linear'] = {'custom_solver': rec}
    try:
        sol, info = fem.solver(p, {'arc_length': cfg})
        x = fem.flat(sol)
        done = True
    except AssertionError:
        # no real root at this distance, or singular tangent: the run says so instead of returning
        ctx.event('raised')
        done = False
    except StepBudgetExceeded:
        if not soft:
            raise
        # the corrector may cycle where a fold is sharper than the step: no verdict beyond the recorded steps
        ctx.event('cycled')
        done = False
    if law == 'neo':
        ctx.event('finite_strain')
    u0, l0, prev = np.zeros(n), 0., None
    start_eq = np.linalg.norm(equil(u0, 0.)) < 1e-9
    for j, (s, u, lam) in enumerate(log):
        if lam < l0:
            ctx.event('descending_' + case['control'])
        ctx.check(s == j, 'callback_log', f'step {s} announced as number {j}')
        r = np.linalg.norm(equil(u, lam))
        ctx.check(r <= 1e-6, 'equilibrium', f'step {j}, lambda {lam}: residual {r:.3e}')
        inc = np.concatenate([u - u0, [ps * np.sqrt(S2) * (lam - l0)]])
        ctx.close(np.linalg.norm(inc), dls(j), 'arc_distance', rtol=1e-7)
        if force and j >= sw:
            ctx.event('switch_step')
        if prev is not None and (start_eq or j > 1):
            cosang = inc @ prev / np.linalg.norm(inc) / np.linalg.norm(prev)
            if cosang <= 0 and law == 'snap':
                # a fold sharper than the step length: the documented iteration itself may come back; judged against it
                ctx.event('sharp_fold')
                ref_inc = reference_step(u0, l0, prev, dls(j), ps, S2, zoo, p, split, fixed, ub, equil, qm if force else None)
                ctx.check(ref_inc is None or ref_inc @ prev <= 0, 'forward', f'step {j} turns back (cosine {cosang:.3f}); the larger inner product goes on')
            else:
                ctx.check(cosang > 0, 'forward', f'step {j} turns back (cosine {cosang:.3f})')
            if lam < l0:
                ctx.event('snap')
        elif prev is None and start_eq:
            ctx.check(lam > 0, 'first_step_forward', f'first load factor {lam}')
        u0, l0, prev = u, lam, inc
    if not done:
        return
    h = info['history']
    ctx.check(len(h) == len(log) and len(h) <= lim, 'callback_log', f'{len(h)} records, {len(log)} callbacks, limit {lim}')
    for r, (s, u, lam) in zip(h, log):
        ctx.check(r['step'] == s and float(r['lam']) == lam and np.array_equal(r['u'], u), 'history_snapshot', f'record of step {s} differs from what was announced')
    reached = bool(log) and log[-1][2] >= 1.
    ctx.check(info['lam'] == (log[-1][2] if log else 0.) and info['lambda_target'] == 1. and info['control'] == case['control'] and bool(info['polished']) == reached, 'info', str({k: v for k, v in info.items() if k != 'history'}))
    ctx.check(all(l < 1. for _, _, l in log[:-1]) and (reached or len(log) == lim), 'stops_at_target', f'{[l for _, _, l in log]}')
    shapes = [np.asarray(s).shape for s in sol] == [s.shape for s in split(x)]
    ctx.check(shapes, 'info', 'shape of the returned fields')
    full = lambda u: zoo.full_residual(p, u, fixed, split)
    if reached:
        r0 = np.linalg.norm(full(log[-1][1]))
        ctx.check(np.linalg.norm(full(x)) <= max(ntol, 1e-14 * r0) * (1 + 1e-6) + 1e-13, 'polished_solution', f'{np.linalg.norm(full(x)):.3e} > {ntol:.3e}')
        if rec.calls:
            ctx.close(rec.calls[0]['b'], -full(log[-1][1]), 'polish_backend', atol=1e-10)
            y = log[-1][1] + sum(c['x'] for c in rec.calls)
            ctx.close(x, y, 'polish_backend', atol=1e-10)
        else:
            ctx.check(r0 <= ntol and np.array_equal(x, log[-1][1]), 'polish_backend', f'no polish although the residual is {r0:.3e}')
        if law in ('lin', 'nl'):
            s2 = fem.flat(fem.solver(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10}}))
            ctx.close(x, s2, 'polished_solution', atol=1e-5)
        # the limit is inclusive: exactly that many steps suffice, one fewer does not
        if len(log) > 1 and not soft:
            for lim2, ok in ((len(log), True), (len(log) - 1, False)):
                s3, i3 = fem.solver(p, {'arc_length': dict(cfg, max_continuation_steps=lim2, step_callback=None)})
                ctx.check(bool(i3['polished']) == ok and len(i3['history']) == lim2, 'exact_limit', f'limit {lim2}: {len(i3["history"])} steps, polished {i3["polished"]}')
                if not ok:
                    ctx.check(np.array_equal(fem.flat(s3), i3['history'][-1]['u']), 'not_reached', 'not the last continuation point')
    else:
        ctx.check(np.array_equal(x, log[-1][1]) and not rec.calls, 'not_reached', 'must return the last continuation point unpolished')
        s4, i4 = fem.solver(p, {'arc_length': dict(cfg, max_continuation_steps=0, step_callback=None)})
        ctx.check(i4['history'] == [] and not i4['polished'] and i4['lam'] == 0. and not np.any(fem.flat(s4)), 'zero_steps')


def reference_step(u0, l0, prev, dl, ps, S2, zoo, p, split, fixed, ub, equil, qm):
    """One step of the spherical arc-length method, written from its description: of both roots the one with the larger inner product with the latest direction."""
    n = len(u0)
    w = ps * np.sqrt(S2)
    d = prev.copy()
    u, lam = u0.copy(), l0
    for it in range(60):
        A = zoo.dense_jacobian(p, split(u))
        r = equil(u, lam)
        t = np.zeros(n) if qm is None else qm.copy()
        for a, _ in fixed:
            A[a] = 0.; A[a, a] = 1.
            t[a] = ub[a] if qm is None else 0.
        if np.linalg.norm(r) <= 1e-6 and it > 1:
            return np.concatenate([u - u0, [w * (lam - l0)]])
        try:
            ubar, ut = np.linalg.solve(A, -r), np.linalg.solve(A, t)
        except np.linalg.LinAlgError:
            return None
        D, L = u - u0 + ubar, lam - l0
        roots = np.roots([ut @ ut + w ** 2, 2 * (D @ ut) + 2 * w ** 2 * L, D @ D + w ** 2 * L ** 2 - dl ** 2])
        if np.any(np.abs(roots.imag) > 0):
            return None
        c = [np.concatenate([D + x * ut, [w * (L + x)]]) for x in roots.real]
        k = int(np.argmax([v @ d for v in c]))
        d = c[k]
        u, lam = u0 + d[:-1], l0 + d[-1] / w
    return None
