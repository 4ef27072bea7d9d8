import numpy as np

PROPERTY = 'C21'
RULE = ('one case = a run of several MMA steps on a random constrained problem (convex quadratic, posynomial-like, oscillating or monotone synthetic gradients; fewer or more constraints than '
        'variables; random bounds, move limits and scaling parameters), driven through the public setters. After every step the monitor rebuilds the convex subproblem and the asymptotes '
        'from the inputs alone and evaluates bounds, optimality system, multipliers and slacks. Non-trivial: a step was checked.')
REQUIRED = ['bounds', 'move_limit', 'inside_asymptotes', 'asymptotes', 'stationarity', 'feasibility', 'multiplier_sign', 'complementarity', 'objective_minimal', 'few_constraints', 'many_constraints',
            'widened', 'tightened', 'clipped', 'converges', 'inputs_untouched', 'reset', 'repeatable', 'active_constraint', 'scaled_z', 'infeasible']


def cases(tier, rng):
    out = []
    for k in range(60 if tier == 'quick' else 600):
        m = int([1, 2, 3, 1, 6, 2][k % 6])
        n = int([5, 20, 3, 1, 4, 60][k % 6]) if k % 2 else int(rng.integers(2, 40))
        out.append({'kind': ['quad', 'recip', 'synthetic'][k % 3], 'm': m, 'n': n, 'wide': bool(k % 4 == 3), 'z': bool(k % 5 == 4), 'steps': 8})
    for k in range(12 if tier == 'quick' else 60):
        out.append({'kind': 'converge', 'm': 1 + k % 2, 'n': int(rng.integers(2, 12)), 'wide': bool(k % 2), 'z': False, 'steps': 60})
    return out


def sub(n, m, f0g, f, fg, x, xmin, xmax, low, upp, move):
    """Svanberg's subproblem for the given data (all columns)."""
    r = xmax - xmin
    al = np.max([xmin, low + .1 * (x - low), x - move * r], axis=0)
    be = np.min([xmax, upp - .1 * (upp - x), x + move * r], axis=0)
    inv = 1. / np.maximum(r, 1e-5)

    def pq(g):
        p, q = np.maximum(g, 0), np.maximum(-g, 0)
        e = 1e-3 * (p + q) + 1e-5 * inv
        return (p + e) * (upp - x) ** 2, (q + e) * (x - low) ** 2
    p0, q0 = pq(f0g)
    PQ = [pq(fg[i][:, None]) for i in range(m)]
    P, Q = np.array([a[0][:, 0] for a in PQ]).reshape(m, n), np.array([a[1][:, 0] for a in PQ]).reshape(m, n)
    b = P @ (1 / (upp - x)) + Q @ (1 / (x - low)) - f
    return al, be, p0, q0, P, Q, b


def run_case(ctx, case):
    from jax_fem.mma import MMA
    rng = np.random.default_rng(case['seed'])
    m, n, kind = case['m'], case['n'], case['kind']
    ctx.event('few_constraints' if m < n else 'many_constraints')
    if case['wide']:
        xmin = rng.uniform(-3, 0, (n, 1))
        xmax = xmin + 10. ** rng.uniform(-1, 1, (n, 1))
    else:
        xmin, xmax = np.zeros((n, 1)), np.ones((n, 1))
    move = float(rng.choice([.05, .1, .2, .5, 1.])) if kind != 'converge' else .2
    a0, c, d = 1., np.full((m, 1), float(rng.choice([1e3, 1e4]))), np.zeros((m, 1))
    a = np.zeros((m, 1))
    if case['z']:
        a = rng.uniform(0, .5, (m, 1))
        d = np.ones((m, 1))
        c = np.full((m, 1), 100.)
        ctx.event('scaled_z')
    rg = xmax - xmin
    H = rng.uniform(.5, 3., (n, 1)) / rg ** 2
    x0 = xmin + rng.uniform(.05, .95, (n, 1)) * rg if kind != 'converge' else xmin + .5 * rg
    tgt = xmin + rng.uniform(-.4, 1.4, (n, 1)) * rg
    W = rng.uniform(.1, 1., (m, n)) / rg.T
    lvl = W @ (xmin + rng.uniform(.3, .7) * rg)
    if case['z'] and rng.random() < .6:      # no feasible point: the elastic variables y carry the violation
        c = np.full((m, 1), float(rng.choice([2., 10.])))
        lvl = W @ xmin - rng.uniform(1., 4., (m, 1))
        if rng.random() < .5:
            a = np.zeros((m, 1))
        ctx.event('infeasible')
    phase = rng.integers(0, 3, (n, 1))

    def model(x, k):
        if kind in ('quad', 'converge'):
            return float(np.sum(H * (x - tgt) ** 2)), 2 * H * (x - tgt), W @ x - lvl, W.copy()
        if kind == 'recip':
            s = x - xmin + .2 * rg
            return float(np.sum(H * rg ** 2 / s)), -H * rg ** 2 / s ** 2, W @ x - lvl, W.copy()
        sgn = np.where(phase == 0, 1., np.where(phase == 1, (-1.) ** k, np.where(rng.random((n, 1)) < .5, -1., 1.)))
        return 1., sgn * (1. + rng.random((n, 1))) * 10. ** rng.uniform(-2, 2), W @ x - lvl - .2 * rng.random(), W * np.where(rng.random((m, n)) < .8, 1, -1)
    o = MMA()

    def begin():
        o.setNumConstraints(m)
        o.setNumDesignVariables(n)
        o.setMinandMaxBoundsForDesignVariables(xmin, xmax)
        o.setScalingParams(a0, a, c, d)
        o.setMoveLimit(move)
        o.setLowerAndUpperAsymptotes(np.ones((n, 1)), np.ones((n, 1)))
    begin()
    x = x0.copy()
    x1, x2 = x.copy(), x.copy()
    o.registerMMAIter(x, x1, x2)
    low = upp = None
    epoch = 1
    steps = case['steps']
    for k in range(steps):
        if k == 5 and kind == 'synthetic' and rng.random() < .5:
            o.resetMMACounter()
            o.registerMMAIter(x, x1, x2)
            epoch = 1
            ctx.event('reset')
        f0, g0, f, g = model(x, k)
        o.setObjectiveWithGradient(f0, g0)
        o.setConstraintWithGradient(f, g)
        given = [v.copy() for v in (x, x1, x2, xmin, xmax, g0, f, g, a, c, d)]
        o.mmasub(x)
        ctx.check(all(np.array_equal(p, q) for p, q in zip(given, (x, x1, x2, xmin, xmax, g0, f, g, a, c, d))), 'inputs_untouched')
        # asymptotes
        if epoch <= 2:
            low, upp = x - .5 * rg, x + .5 * rg
        else:
            z = (x - x1) * (x1 - x2)
            fac = np.where(z > 0, 1.2, np.where(z < 0, .7, 1.))
            if np.any(z > 0):
                ctx.event('widened')
            if np.any(z < 0):
                ctx.event('tightened')
            l, u = x - fac * (x1 - low), x + fac * (upp - x1)
            low, upp = np.clip(l, x - 10 * rg, x - .01 * rg), np.clip(u, x + .01 * rg, x + 10 * rg)
            if np.any(l != low) or np.any(u != upp):
                ctx.event('clipped')
        L, U = o.getAsymptoteValues()
        sc = float(np.max(np.abs(rg))) + float(np.max(np.abs(x)))
        ctx.close(L, low, 'asymptotes', rtol=0, atol=1e-10 * sc)
        ctx.close(U, upp, 'asymptotes', rtol=0, atol=1e-10 * sc)
        al, be, p0, q0, P, Q, b = sub(n, m, g0, f, g, x, xmin, xmax, low, upp, move)
        X, Y, Z = [np.array(v) for v in o.getOptimalValues()]
        lam, xsi, eta, mu, zet = [np.array(v) for v in o.getLagrangeMultipliers()]
        s = np.array(o.getSlackValue())
        shapes = X.shape == (n, 1) and Y.shape == (m, 1) and np.size(Z) == 1 and lam.shape == (m, 1) and s.shape == (m, 1)
        if not ctx.check(shapes, 'bounds', 'shapes'):
            return
        eps = 1e-12 * sc
        ctx.check(np.all(X >= xmin - eps) and np.all(X <= xmax + eps), 'bounds', f'{np.min(X - xmin):.3e} {np.min(xmax - X):.3e}')
        ctx.check(np.max(np.abs(X - x) / rg) <= move * (1 + 1e-12), 'move_limit', f'{np.max(np.abs(X - x) / rg)} > {move}')
        ctx.check(np.all(X > low) and np.all(X < upp) and np.all(X >= al - eps) and np.all(X <= be + eps), 'inside_asymptotes')
        ux, xl = upp - X, X - low
        psi = (p0 + P.T @ lam) / ux ** 2 - (q0 + Q.T @ lam) / xl ** 2
        gs = float(np.max(np.abs(p0 / ux ** 2)) + np.max(np.abs(q0 / xl ** 2)) + np.max(np.abs(P.T @ lam / ux ** 2)) + np.max(np.abs(Q.T @ lam / xl ** 2)))
        # the interior-point iteration is cut after 200 inner steps: with badly scaled data it ends a little early (measured: up to 1.3e-4)
        tol = 1e-4 if kind == 'recip' else 2e-3 if kind == 'synthetic' else 1e-3
        ctx.close(psi - xsi + eta, np.zeros((n, 1)), 'stationarity', atol=tol * (1 + gs))
        ctx.close(c + d * Y - mu - lam, np.zeros((m, 1)), 'stationarity', atol=tol * (1 + np.max(c)))
        ctx.close(a0 - np.ravel(zet)[0] - np.sum(a * lam), 0., 'stationarity', atol=tol * (1 + float(np.sum(a * lam))))
        gx = P @ (1 / ux) + Q @ (1 / xl) - b
        gsc = float(np.max(np.abs(P @ (1 / ux)) + np.abs(Q @ (1 / xl))))
        ctx.close(gx - a * np.ravel(Z)[0] - Y + s, np.zeros((m, 1)), 'feasibility', atol=tol * (1 + gsc))
        ctx.check(min(np.min(v) for v in (lam, xsi, eta, mu, zet, s, Y, Z)) > -1e-12, 'multiplier_sign')
        for p, q in ((lam, s), (xsi, X - al), (eta, be - X), (mu, Y), (zet, Z)):
            ctx.close(p * q, np.zeros_like(p), 'complementarity', atol=1e-4 if kind in ('quad', 'recip') else 3e-4)
        if np.max(Y) > .1:
            ctx.event('elastic')
        if np.max(lam) > 1e-3:
            ctx.event('active_constraint')
        # no admissible point of the subproblem does better (weak duality bound)
        # W(lam) = min over the box of psi(x, lam), attained variable by variable: any candidate point gives an upper bound
        T = np.linspace(0, 1, 201)
        cand = al + (be - al) * T[None]
        val = lambda xx: (p0 + P.T @ lam) / (upp - xx) + (q0 + Q.T @ lam) / (xx - low)
        gap = val(X) - np.min(val(cand), axis=1, keepdims=True)
        vs = float(np.max(np.abs(val(X))))
        ctx.check(np.max(gap) <= 1e-3 * (1 + vs), 'objective_minimal', f'a grid point is better by {np.max(gap):.3e}')
        x2, x1, x = x1.copy(), x.copy(), X.copy()
        o.registerMMAIter(x, x1, x2)
        epoch += 1
        if k == 0:
            o2 = MMA()
            o, keep = o2, o
            begin()
            o.registerMMAIter(x1.copy(), x1.copy(), x1.copy())
            o.setObjectiveWithGradient(f0, g0)
            o.setConstraintWithGradient(f, g)
            o.mmasub(x1)
            ctx.check(np.array_equal(np.array(o.getOptimalValues()[0]), X), 'repeatable')
            o = keep
    if kind == 'converge':
        # separable quadratic with linear constraints: solve by projected dual ascent to high accuracy
        def xof(l):
            return np.clip(tgt - (W.T @ l) / (2 * H), xmin, xmax)
        import scipy.optimize as so
        dual = lambda l: -(np.sum(H * (xof(l[:, None]) - tgt) ** 2) + np.sum(l[:, None] * (W @ xof(l[:, None]) - lvl)))
        best = so.minimize(dual, np.ones(m), jac=lambda l: -(W @ xof(l[:, None]) - lvl)[:, 0], bounds=[(0, None)] * m, method='L-BFGS-B', options={'ftol': 1e-15, 'gtol': 1e-11, 'maxiter': 1000})
        opt = xof(best.x[:, None])
        ctx.check(np.max(W @ x - lvl) <= 1e-3, 'converges', f'constraint {np.max(W @ x - lvl):.3e}')
        ctx.close((x - opt) / rg, np.zeros((n, 1)), 'converges', atol=4e-2)
