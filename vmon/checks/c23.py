import numpy as np

PROPERTY = 'C23'
RULE = ('point cases: a random deformation history (loading, unloading, reversal, volume change, large rotations, zero and tiny increments) fed through the stress and state-update maps; structure cases: meshes with '
        'nodal displacement histories, either prescribed everywhere or solved for, fed through the problem. An online monitor keeps its own state and rebuilds trial state, yield condition, flow, stress and tangent at every '
        'increment. Non-trivial: the history had both elastic and plastic increments.')
REQUIRED = ['elastic_stress', 'yield_surface', 'yield_inequality', 'mean_stress', 'alpha_monotone', 'alpha_elastic', 'flow_direction', 'state', 'zero_increment', 'superposed_rotation', 'rotation_state', 'initial_rotation', 'tangent_point',
            'cauchy', 'symmetry', 'gp_state', 'gp_stress', 'state_only_on_update', 'structural_residual', 'structural_tangent', 'solved_history', 'equilibrium', 'elastic_path', 'unload', 'plastic_steps', 'elastic_steps', 'rotation_history', 'tiny_increment', 'rejects_2d']
K, G, H, S0 = 164e3, 80e3, 18., 400.
S23 = np.sqrt(2. / 3.)
I3 = np.eye(3)


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'point', 'amp': [.004, .02, .1, .4][k % 4], 'style': ['random', 'proportional', 'reversal', 'rotating', 'shear'][k % 5]} for k in range(24 if q else 300)]
    out += [{'kind': 'mesh', 'n': [1 + k % 2, 1 + (k // 2) % 2, 1 + k % 3]} for k in range(8 if q else 60)]
    out += [{'kind': 'solve', 'style': ['tension', 'shear', 'compress', 'twist'][k % 4]} for k in range(6 if q else 40)]
    return out


def dev(A):
    return A - np.trace(A) / 3. * I3


def step(F, st):
    """Return mapping of the model, from its published definition: (tau, new state, trial yield value)."""
    Fo, bo, al = st
    f = F @ np.linalg.inv(Fo)
    fb = f / np.cbrt(np.linalg.det(f))
    b = fb @ bo @ fb.T
    s = G * dev(b)
    y = np.linalg.norm(s) - S23 * (S0 + H * al)
    if y >= 0.:
        mu = G * np.trace(b) / 3.
        dg = y / (2. * mu + 2. / 3. * H)
        s = s * (1. - 2. * mu * dg / np.linalg.norm(s))
        al = al + S23 * dg
        b = s / G + np.trace(b) / 3. * I3
    J = np.linalg.det(F)
    return .5 * K * (J ** 2 - 1.) * I3 + s, (F, b, al), y


def rot(rng, big=True):
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    Q = Q * np.sign(np.linalg.det(Q))
    if big:
        return Q
    w = rng.normal(size=3) * .05
    W = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    import scipy.linalg
    return scipy.linalg.expm(W)


def history(case, rng, n):
    import scipy.linalg
    a, F, out = case['amp'], np.eye(3), []
    D0 = rng.normal(size=(3, 3))
    D0 = D0 / np.linalg.norm(D0)
    for k in range(n):
        D = rng.normal(size=(3, 3))
        D /= np.linalg.norm(D)
        st = case['style']
        if st == 'proportional':
            F = scipy.linalg.expm(D0 * a * (k + 1) / n * 2)
        elif st == 'reversal':
            F = scipy.linalg.expm(D0 * a * np.sin(1.3 * (k + 1)))
        elif st == 'rotating':
            F = rot(rng, bool(k % 3 == 0)) @ scipy.linalg.expm(D * a * rng.uniform(0, 1)) @ F
        elif st == 'shear':
            F = F @ (np.eye(3) + a * np.outer(*np.eye(3)[rng.permutation(3)[:2]]) * rng.choice([-1., 1.]))
        else:
            F = scipy.linalg.expm(D * a * rng.uniform(0, 1.5)) @ F
        if k % 5 == 4:    # a small step back: elastic unloading
            F = scipy.linalg.expm(-D * .0008) @ F
        out.append(F)
    return out


def run_case(ctx, case):
    from .. import fem
    import importlib
    M = importlib.import_module('applications.finite_plasticity.model')
    rng = np.random.default_rng(case['seed'])
    {'point': point, 'mesh': mesh_case, 'solve': solve_case}[case['kind']](ctx, case, rng, fem, M)


def problem(fem, M, m, bcs=None, cls=None):
    from .. import zoo
    return (cls or M.Plasticity)(fem.mk(m), vec=3, dim=3, ele_type='HEX8', dirichlet_bc_info=zoo.bc_info(bcs))


def audit(ctx, F, st, P, new, sig, rng):
    """Everything the statement says about one increment at one point, from F, the old state, and what the library returned."""
    tau, want, y = step(F, st)
    J = np.linalg.det(F)
    got_tau = P @ F.T
    sc = S0 + np.linalg.norm(tau) + K * abs(J - 1.)
    at = 1e-9 * sc
    ctx.close(got_tau, got_tau.T, 'symmetry', rtol=0, atol=at)
    ctx.close(np.trace(got_tau) / 3., .5 * K * (J ** 2 - 1.), 'mean_stress', rtol=0, atol=at)
    s = dev(got_tau)
    ns = np.linalg.norm(s)
    R_new = S23 * (S0 + H * float(new[2]))
    ctx.check(ns <= R_new * (1 + 1e-9) + at, 'yield_inequality', f'|s| = {ns} outside the yield surface {R_new}')
    plastic = y > 1e-7 * S0
    ctx.check(float(new[2]) >= st[2] - 1e-14, 'alpha_monotone', f'{st[2]} -> {float(new[2])}')
    if y < -1e-7 * S0:
        ctx.close(got_tau, tau, 'elastic_stress', rtol=0, atol=at)
        ctx.check(float(new[2]) == float(st[2]), 'alpha_elastic', f'elastic increment changed the plastic strain from {st[2]} to {float(new[2])}')
        ctx.event('elastic_steps')
    elif plastic:
        ctx.close(ns, R_new, 'yield_surface', rtol=0, atol=at)
        ctx.check(float(new[2]) > st[2], 'alpha_monotone', 'no plastic strain in a plastic increment')
        f = F @ np.linalg.inv(st[0])
        f = f / np.cbrt(np.linalg.det(f))
        tr = dev(f @ st[1] @ f.T)
        ctx.close(s / ns, tr / np.linalg.norm(tr), 'flow_direction', rtol=0, atol=1e-8)
        ctx.event('plastic_steps')
    ctx.close(got_tau, tau, 'yield_surface' if plastic else 'elastic_stress', rtol=0, atol=at)
    ctx.close(new[0], F, 'state', rtol=0, atol=1e-13 * np.linalg.norm(F))
    ctx.close(new[1], want[1], 'state', rtol=0, atol=1e-9 * np.linalg.norm(want[1]))
    ctx.close(float(new[2]), want[2], 'state', rtol=0, atol=1e-10 * (1 + want[2]))
    ctx.close(sig, got_tau / J, 'cauchy', rtol=0, atol=at)
    return y


def point(ctx, case, rng, fem, M):
    from .. import meshes
    jax, jnp = fem.jax, fem.np
    m = meshes.make('HEX8', rng, n=[1, 1, 1])
    p = problem(fem, M, m)
    ctx.raises(lambda: M.Plasticity(fem.mk(meshes.make('QUAD4', rng, n=[1, 1])), vec=2, dim=2, ele_type='QUAD4'), 'rejects_2d', ValueError)
    tm, um, cm = p.get_maps()
    stress, update, cauchy = jax.jit(tm), jax.jit(um), jax.jit(cm)
    tan = jax.jit(jax.jacfwd(tm))
    P_of = lambda F, st: np.asarray(stress(jnp.asarray(F - I3), *map(jnp.asarray, st)))
    U_of = lambda F, st: [np.asarray(a) for a in update(jnp.asarray(F - I3), *map(jnp.asarray, st))]
    st = (np.eye(3), np.eye(3), 0.)
    Q0 = rot(rng)
    st_r, st_i = st, st                    # the same history seen by a rotating observer / on a rotated reference body
    kinds = set()
    Fs = history(case, rng, 16)
    for k, F in enumerate(Fs):
        P, new = P_of(F, st), U_of(F, st)
        y = audit(ctx, F, st, P, new, np.asarray(cauchy(jnp.asarray(F - I3), *map(jnp.asarray, st))), rng)
        kinds.add(y > 0)
        # the state is an argument: evaluating again gives the same answer
        ctx.close(P_of(F, st), P, 'state_only_on_update', rtol=0)
        # superposed rotation of the new configuration
        R = rot(rng)
        if abs(y) > 1e-6 * S0:
            sc = 1e-8 * (S0 + np.linalg.norm(P))
            ctx.close(P_of(R @ F, st), R @ P, 'superposed_rotation', rtol=0, atol=sc)
            nr = U_of(R @ F, st)
            ctx.close(nr[1], R @ new[1] @ R.T, 'rotation_state', rtol=0, atol=1e-9 * np.linalg.norm(new[1]))
            ctx.close(float(nr[2]), float(new[2]), 'rotation_state', rtol=0, atol=1e-11)
            # observer rotating through the history
            Pr = P_of(R @ F, st_r)
            ctx.close(Pr, R @ P, 'rotation_history', rtol=0, atol=sc * 10)
            # isotropy: body rotated before the test
            ctx.close(P_of(F @ Q0, st_i), P @ Q0, 'initial_rotation', rtol=0, atol=sc * 10)
            # tangent against differences of the monitor's own stress
            V = rng.normal(size=(3, 3))
            h = 1e-7
            g = lambda F: step(F, st)[0] @ np.linalg.inv(F).T
            yp, ym = step(F + h * V, st)[2], step(F - h * V, st)[2]
            if yp * ym > 0 and yp * y > 0:
                fd = (g(F + h * V) - g(F - h * V)) / (2 * h)
                C = np.asarray(tan(jnp.asarray(F - I3), *map(jnp.asarray, st)))
                ctx.close(np.einsum('ijkl,kl->ij', C, V), fd, 'tangent_point', rtol=0, atol=1e-5 * (K + np.linalg.norm(fd)))
        st_r = tuple(U_of(R @ F, st_r))
        st_i = tuple(U_of(F @ Q0, st_i))
        ctx.close(float(st_r[2]), float(new[2]), 'rotation_state', rtol=0, atol=1e-9 * (1 + float(new[2])))
        ctx.close(float(st_i[2]), float(new[2]), 'rotation_state', rtol=0, atol=1e-9 * (1 + float(new[2])))
        old, st = st, (new[0], new[1], float(new[2]))
        # a repeated increment
        P2, n2 = P_of(F, st), U_of(F, st)
        ctx.close(P2, P, 'zero_increment', rtol=0, atol=1e-9 * (S0 + np.linalg.norm(P)))
        ctx.close(n2[1], st[1], 'zero_increment', rtol=0, atol=1e-11 * np.linalg.norm(st[1]))
        ctx.close(float(n2[2]), st[2], 'zero_increment', rtol=0, atol=1e-13 * (1 + st[2]))
        # small elastic excursion and back: the stress returns, no plastic strain
        D = dev(st[1])
        if y > 1e-6 * S0:
            E = I3 - 1e-3 * D / np.linalg.norm(D)
            F2 = E @ F
            y2 = step(F2, st)[2]
            if y2 < -1e-6 * S0:
                n3 = U_of(F2, st)
                audit(ctx, F2, st, P_of(F2, st), n3, np.asarray(cauchy(jnp.asarray(F2 - I3), *map(jnp.asarray, st))), rng)
                st3 = (n3[0], n3[1], float(n3[2]))
                ctx.event('unload')
                # elastic path independence: half way and back in two elastic steps
                Fm = (I3 - .5e-3 * D / np.linalg.norm(D)) @ F
                Pm = P_of(Fm, st3)
                ctx.close(Pm, P_of(Fm, st), 'elastic_path', rtol=0, atol=1e-8 * (S0 + np.linalg.norm(Pm)))
        if k % 4 == 0:
            Ft = F @ (I3 + 1e-9 * rng.normal(size=(3, 3)))
            ctx.close(P_of(Ft, st), P, 'tiny_increment', rtol=0, atol=1e-9 * 30 * K + 1e-9 * np.linalg.norm(P))
    if len(kinds) < 2 and case['amp'] > .004:
        ctx.event('one_sided')


def grads(m, u, X, W):
    from .. import refasm
    N, g, jxw, _ = refasm.cell_geom('HEX8', m.points, m.cells, X, W)
    return np.einsum('cnv,cqnd->cqvd', u[m.cells], g), g, jxw


def own_force(m, u, st, X, W):
    """Internal forces and updated states by the monitor."""
    gr, g, jxw = grads(m, u, X, W)
    f = np.zeros_like(u)
    nc, nq = jxw.shape
    new = [np.zeros((nc, nq, 3, 3)), np.zeros((nc, nq, 3, 3)), np.zeros((nc, nq))]
    sig = np.zeros((nc, nq, 3, 3))
    ys = np.zeros((nc, nq))
    for c in range(nc):
        for q in range(nq):
            F = gr[c, q] + I3
            tau, s, ys[c, q] = step(F, (st[0][c, q], st[1][c, q], st[2][c, q]))
            for a, b in zip(new, s):
                a[c, q] = b
            sig[c, q] = tau / np.linalg.det(F)
            np.add.at(f, m.cells[c], g[c, q] @ (tau @ np.linalg.inv(F).T).T * jxw[c, q])
    return f, new, sig, ys


def mesh_case(ctx, case, rng, fem, M):
    """Displacements prescribed everywhere: per-point states of different cells must not mix."""
    from .. import meshes, zoo, refasm
    jnp = fem.np
    m = meshes.make('HEX8', rng, n=case['n'], distort=.15)
    p = problem(fem, M, m)
    X, W = refasm.quad_points(p.fes[0])
    nc, nq = len(m.cells), len(W)
    st = [np.tile(I3, (nc, nq, 1, 1)), np.tile(I3, (nc, nq, 1, 1)), np.zeros((nc, nq))]
    ctx.check(len(p.internal_vars) == 3, 'gp_state')
    for a, b in zip(p.internal_vars, st):
        ctx.close(a, b, 'gp_state', rtol=0)
    u = np.zeros((len(m.points), 3))
    h = np.min(np.ptp(m.points, axis=0) / max(case['n']))
    for k in range(5):
        u = u + rng.normal(size=u.shape) * h * (.0005 if k in (0, 3) else .02)
        f, new, sig, ys = own_force(m, u, st, X, W)
        lib_before = [np.array(a) for a in p.internal_vars]
        r = zoo.flat_residual(p, [u])
        sc = np.max(np.abs(f)) + S0 * h ** 2
        ctx.close(r, f.reshape(-1), 'structural_residual', rtol=0, atol=1e-9 * sc)
        got = p.update_int_vars_gp(jnp.asarray(u), p.internal_vars)
        gs = np.asarray(p.compute_stress(jnp.asarray(u), p.internal_vars))
        ctx.close(gs, sig, 'gp_stress', rtol=0, atol=1e-9 * (S0 + np.max(np.abs(sig))))
        for a, b in zip(got, new):
            ctx.close(a, b, 'gp_state', rtol=0, atol=1e-9 * (1 + np.max(np.abs(b))))
        # tangent
        p.newton_update([jnp.asarray(u)])
        import scipy.sparse
        A = scipy.sparse.coo_matrix((np.asarray(p.V), (np.asarray(p.I), np.asarray(p.J))), shape=(u.size,) * 2).tocsr()
        v = rng.normal(size=u.shape)
        e = 1e-7 * h
        fp, _, _, yp = own_force(m, u + e * v, st, X, W)
        fm, _, _, ym = own_force(m, u - e * v, st, X, W)
        if np.all(yp * ym > 0):
            fd = ((fp - fm) / (2 * e)).reshape(-1)
            ctx.close(A @ v.reshape(-1), fd, 'structural_tangent', rtol=1e-5)
        # nothing so far may have advanced the state
        for a, b in zip(p.internal_vars, lib_before):
            ctx.close(a, b, 'state_only_on_update', rtol=0)
        ctx.close(zoo.flat_residual(p, [u]), r, 'state_only_on_update', rtol=0)
        ctx.event('plastic_steps', int(np.sum(ys > 0)))
        ctx.event('elastic_steps', int(np.sum(ys < 0)))
        p.internal_vars = got
        st = [np.asarray(a) for a in new]
        # repeated increment on the structure
        again = p.update_int_vars_gp(jnp.asarray(u), p.internal_vars)
        for a, b in zip(again, got):
            ctx.close(a, b, 'zero_increment', rtol=0, atol=1e-11)
        ctx.close(zoo.flat_residual(p, [u]), r, 'zero_increment', rtol=0, atol=1e-8 * sc)


def solve_case(ctx, case, rng, fem, M):
    """A boundary value problem stepped through loading and unloading as the examples do it."""
    from .. import meshes, zoo, refasm
    jnp = fem.np
    m = meshes.make('HEX8', rng, n=[1, 1, int(rng.integers(1, 3))], size=[1., 1., 1.], distort=0.)
    P = m.points
    lo, hi = np.nonzero(P[:, 2] < P[:, 2].min() + 1e-9)[0], np.nonzero(P[:, 2] > P[:, 2].max() - 1e-9)[0]
    sty = case['style']
    Lz = np.ptp(P[:, 2])
    cen = P.mean(0)

    def top(s):
        d = np.zeros((len(hi), 3))
        if sty in ('tension', 'compress'):
            d[:, 2] = s * Lz * (1 if sty == 'tension' else -1)
        elif sty == 'shear':
            d[:, 0] = s * Lz
        else:
            x = P[hi, :2] - cen[:2]
            c, sn = np.cos(10 * s), np.sin(10 * s)
            d[:, :2] = x @ np.array([[c, sn], [-sn, c]]) - x
            d[:, 2] = s * Lz
        return d

    def bcs(s):
        d = top(s)
        out = [([int(i)], c, 0.) for c in range(3) for i in lo]
        return out + [([int(i)], c, float(d[k, c])) for c in range(3) for k, i in enumerate(hi)]
    if len(lo) + len(hi) == len(P):
        m = meshes.make('HEX8', rng, n=[1, 1, 2], size=[1., 1., 1.], distort=0.)
        P = m.points
        lo, hi = np.nonzero(P[:, 2] < P[:, 2].min() + 1e-9)[0], np.nonzero(P[:, 2] > P[:, 2].max() - 1e-9)[0]
        Lz, cen = np.ptp(P[:, 2]), P.mean(0)
    cls = type('Stepped', (M.Plasticity,), zoo.step_budget(400))
    p = problem(fem, M, m, bcs(0.), cls)
    X, W = refasm.quad_points(p.fes[0])
    nc, nq = len(m.cells), len(W)
    st = [np.tile(I3, (nc, nq, 1, 1)), np.tile(I3, (nc, nq, 1, 1)), np.zeros((nc, nq))]
    iv = p.internal_vars
    sol = [jnp.zeros((len(P), 3))]
    free = np.setdiff1d(np.arange(len(P)), np.r_[lo, hi])
    amax = 0.
    path = [.001, .005, .012, .009, .0, -.006] if sty != 'twist' else [.002, .008, .02, .012]
    for s in path:
        fe = p.fes[0]
        fe.update_Dirichlet_boundary_conditions(zoo.bc_info(bcs(s)))
        p.internal_vars = iv
        sol = fem.solver(p, {'spsolve_solver': {}, 'initial_guess': sol, 'tol': 1e-6, 'rel_tol': 1e-12})
        u = np.asarray(sol[0])
        f, new, sig, ys = own_force(m, u, st, X, W)
        ctx.close(f[free], 0. * f[free], 'equilibrium', rtol=0, atol=1e-5)
        ctx.close(u[hi], top(s), 'solved_history', rtol=0, atol=1e-10)
        got = p.update_int_vars_gp(sol[0], iv)
        ctx.close(p.compute_stress(sol[0], iv), sig, 'gp_stress', rtol=0, atol=1e-8 * (S0 + np.max(np.abs(sig))))
        for a, b in zip(got, new):
            ctx.close(a, b, 'solved_history', rtol=0, atol=1e-8)
        ctx.check(np.all(np.asarray(got[2]) >= np.asarray(iv[2]) - 1e-14), 'alpha_monotone')
        ctx.event('plastic_steps', int(np.sum(ys > 0)))
        ctx.event('elastic_steps', int(np.sum(ys < 0)))
        iv, st = got, [np.asarray(a) for a in new]
