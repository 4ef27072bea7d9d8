import numpy as np
from .. import meshes
from ..refelem import ref, shape_of
from .c21 import sub

PROPERTY = 'C22'
RULE = ('one case = a filter built for a random mesh and a random subset of design cells and compared entry by entry with the cone filter of the definition; or an optimisation run '
        'with synthetic or finite-element objectives whose callbacks are logged and replayed: designs, iteration numbers, move limit, filtered sensitivities, update = solution of the '
        'convex subproblem. Non-trivial: the filter was compared, or two or more iterations were replayed.')
REQUIRED = ['filter_entries', 'filter_rowsums', 'constant_density', 'density_filter', 'sensitivity_filter', 'constraint_filter', 'subset', 'few_cells', 'many_neighbours', 'design_range', 'move_limit', 'callbacks',
            'final_design', 'update', 'zero_iterations', 'inputs_untouched', 'density_filtering_on', 'sensitivity_filtering_off', 'fem_objective', 'multi_constraint', 'low_density']
TYPES = ['QUAD4', 'TRI3', 'HEX8', 'TET4', 'QUAD8', 'TRI6']


def cases(tier, rng):
    q = tier == 'quick'
    out = []
    for k in range(18 if q else 120):
        out.append({'kind': 'filter', 'type': TYPES[k % 6], 'subset': bool(k % 2), 'stretch': k % 3 == 1, 'small': k % 5 == 3})
    for k in range(2 if q else 8):
        out.append({'kind': 'filter', 'type': ['HEX8', 'QUAD4'][k % 2], 'subset': False, 'rod': True})
    for k in range(16 if q else 120):
        out.append({'kind': 'run', 'type': TYPES[k % 4], 'subset': bool(k % 2), 'dens': k % 4 == 2, 'sens': k % 4 != 3, 'm': 1 + (k // 2) % 3, 'iters': int(rng.integers(3, 9)), 'move': float(rng.choice([.02, .1, .2, .5]))})
    for k in range(2 if q else 10):
        out.append({'kind': 'fem', 'type': ['QUAD4', 'TRI3'][k % 2]})
    return out


def setup(case, rng, fem):
    dim = ref(case['type']).dim
    if case.get('small'):
        n = [2, 2] if dim == 2 else [1, 2, 1]
    elif dim == 2:
        n = [int(i) for i in rng.integers(5, 10, 2)]
    else:
        n = [int(i) for i in rng.integers(2, 4, 3)]
    size = np.asarray(n, float) * (10. ** rng.uniform(-2, 2))
    if case.get('stretch'):
        size[int(rng.integers(dim))] /= float(rng.uniform(4, 12))
    if case.get('rod'):   # thin cells: many centres within the radius
        n = [2, 7, 7] if dim == 3 else [2, 40]
        size = np.asarray(n, float) / [1., 10., 10.] if dim == 3 else np.asarray(n) / [1., 80.]
    m = meshes.make(case['type'], rng, n=n, size=size, distort=.15)
    from .. import zoo
    fe = zoo.make(m, 'lin', None, 1, None, []).fes[0]
    nc = len(m.cells)
    flex = np.arange(nc)
    if case.get('subset'):
        flex = rng.permutation(nc)[:max(2, int(nc * rng.uniform(*((.05, .35) if rng.random() < .4 else (.35, .95)))))]
    fe.flex_inds = flex
    return m, fe, flex


def cone(m, flex):
    """The filter by its definition."""
    V = m.volume()
    rmin = 1.5 * (V / len(m.cells)) ** (1. / m.dim)
    cen = m.points[m.cells].mean(1)[flex]
    D = np.linalg.norm(cen[:, None] - cen[None], axis=2)
    return np.maximum(rmin - D, 0.), rmin


def run_case(ctx, case):
    from .. import fem
    from jax_fem import mma
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'fem':
        return compliance(ctx, case, rng, fem, mma)
    m, fe, flex = setup(case, rng, fem)
    H, rmin = cone(m, flex)
    n = len(flex)
    if case['subset']:
        ctx.event('subset')
    Hl, Hs = mma.compute_filter_kd_tree(fe)
    if case['kind'] == 'filter':
        if n < 20:
            ctx.event('few_cells')
        if np.max(np.sum(H > 0, 1)) > 20:
            ctx.event('many_neighbours')
        ctx.close(np.asarray(Hl.todense()), H, 'filter_entries', rtol=0, atol=1e-9 * rmin)
        ctx.close(np.asarray(Hs), H.sum(1), 'filter_rowsums', rtol=1e-9)
        ft = {'H': Hl, 'Hs': Hs}
        k = 10. ** rng.uniform(-3, 0)
        ctx.close(mma.applyDensityFilter(ft, np.full((n, 1), k)), np.full((n, 1), k), 'constant_density', rtol=1e-12)
        rho = rng.random((n, 1))
        ctx.close(mma.applyDensityFilter(ft, rho), H @ rho / H.sum(1)[:, None], 'density_filter', rtol=1e-9)
        rho[rng.random(n) < .3] = 10. ** rng.uniform(-6, -3)
        ctx.event('low_density')
        dJ, dv = rng.normal(size=(n, 1)), rng.normal(size=(3, n, 1))
        keep = [a.copy() for a in (rho, dJ, dv)]
        a, b = mma.applySensitivityFilter(ft, rho, dJ, dv)
        w = rho / np.maximum(1e-3, rho) / H.sum(1)[:, None]
        ctx.close(a, H @ (w * dJ), 'sensitivity_filter', rtol=1e-9)
        ctx.close(b, np.einsum('ij,kjl->kil', H, w[None] * dv), 'constraint_filter', rtol=1e-9)
        ctx.check(all(np.array_equal(p, q) for p, q in zip(keep, (rho, dJ, dv))), 'inputs_untouched')
        return
    M, iters, move = case['m'], case['iters'], case['move']
    if M > 1:
        ctx.event('multi_constraint')
    tgt = rng.uniform(-.3, 1.3, (n, 1))
    W = rng.uniform(.2, 1., (M, n)) / n
    lvl = W @ np.full((n, 1), .45) * rng.uniform(.7, 1.2, (M, 1))
    mix = rng.normal(size=n) * .1
    log = []

    def obj(rho):
        r = np.array(rho, copy=True)
        log.append(('J', r, None))
        s = float(np.sum((r - tgt) ** 2) + (mix @ r[:, 0]) ** 2)
        g = 2 * (r - tgt) + 2 * (mix @ r[:, 0]) * mix[:, None]
        log[-1] = ('J', r, None, s, g)
        return s, fem.np.asarray(g) if case['sens'] else g

    def cons(rho, it):
        r = np.array(rho, copy=True)
        f, g = (W @ r - lvl)[:, 0], W.reshape(M, n, 1) * 1.
        log.append(('V', r, it, f, g))
        return fem.np.asarray(f), fem.np.asarray(g)
    start = rng.choice([0., .02, .3, .5, 1.], size=(n, 1)) if rng.random() < .5 else np.full((n, 1), float(rng.uniform(.05, .95)))
    given = start.copy()
    old = mma.density_filtering, mma.sensitivity_filtering
    try:
        mma.density_filtering, mma.sensitivity_filtering = case['dens'], case['sens']
        out = mma.optimize(fe, start, {'movelimit': move, 'maxIters': iters}, obj, cons, M)
        first, log[:] = list(log), []
        r0 = mma.optimize(fe, start, {'movelimit': move, 'maxIters': 0}, obj, cons, M)
    finally:
        mma.density_filtering, mma.sensitivity_filtering = old
    ctx.check(not log and np.array_equal(r0, given), 'zero_iterations')
    ctx.check(np.array_equal(start, given), 'inputs_untouched', 'the initial design was modified')
    log = first
    ctx.event('density_filtering_on', int(case['dens']))
    ctx.event('sensitivity_filtering_off', int(not case['sens']))
    # order of the callbacks does not matter; one of each per iteration with the same design
    J, V = [r for r in log if r[0] == 'J'], [r for r in log if r[0] == 'V']
    ctx.check(len(J) == iters and [r[2] for r in V] == list(range(1, iters + 1)) and [r[0] for r in log] in (['J', 'V'] * iters, ['V', 'J'] * iters), 'callbacks', str([(r[0], r[2]) for r in log]))
    Hs1 = H.sum(1)[:, None]
    low = upp = None
    x, x1, x2 = given.copy(), given.copy(), given.copy()
    one, zero = np.ones((n, 1)), np.zeros((n, 1))
    for k in range(iters):
        # the design of this iteration, before density filtering
        want = H @ x / Hs1 if case['dens'] else x
        ctx.close(J[k][1], want, 'callbacks', rtol=0, atol=1e-9)
        ctx.close(V[k][1], want, 'callbacks', rtol=0, atol=1e-9)
        g0, g = J[k][4], V[k][4]
        if case['sens']:
            w = x / np.maximum(1e-3, x) / Hs1
            g0, g = H @ (w * g0), np.einsum('ij,kjl->kil', H, w[None] * g)
        o = mma.MMA()
        o.setNumConstraints(M)
        o.setNumDesignVariables(n)
        o.setMinandMaxBoundsForDesignVariables(zero, one)
        o.setScalingParams(1., np.zeros((M, 1)), np.full((M, 1), 1e4), np.zeros((M, 1)))
        o.setMoveLimit(move)
        o.setLowerAndUpperAsymptotes(one if low is None else low, one if upp is None else upp)
        for _ in range(k + 1):
            o.registerMMAIter(x, x1, x2)
        o.setObjectiveWithGradient(J[k][3], np.asarray(g0))
        o.setConstraintWithGradient(V[k][3][:, None], np.asarray(g).reshape(M, n))
        o.mmasub(x)
        y = np.array(o.getOptimalValues()[0])
        low, upp = o.getAsymptoteValues()
        nxt = J[k + 1][1] if k + 1 < iters and not case['dens'] else (np.asarray(out) if k + 1 == iters else None)
        if nxt is not None:
            ctx.check(np.min(nxt) >= 0 and np.max(nxt) <= 1, 'design_range', f'{np.min(nxt)} {np.max(nxt)}')
            ctx.check(np.max(np.abs(nxt - x)) <= move * (1 + 1e-9), 'move_limit', f'{np.max(np.abs(nxt - x))} > {move}')
            ctx.close(nxt, y, 'update' if k + 1 < iters else 'final_design', rtol=0, atol=1e-6)
            if np.max(np.abs(nxt - y)) < 1e-5:
                y = nxt
        x2, x1, x = x1, x, np.asarray(y).copy()
    ctx.check(np.asarray(out).shape == given.shape, 'final_design', f'shape {np.asarray(out).shape}')


def compliance(ctx, case, rng, fem, mma):
    """A real compliance problem: the volume bound is met and the compliance goes down."""
    jnp, jax = fem.np, fem.jax
    from .. import zoo
    m = meshes.make(case['type'], rng, n=[8, 4], size=[8., 4.], distort=0.)
    left = [i for i in range(len(m.points)) if m.points[i, 0] < 1e-9]
    right = [i for i in range(len(m.points)) if m.points[i, 0] > 8 - 1e-9 and m.points[i, 1] < 1.1]
    x0 = np.abs(m.points).max()
    law = zoo.flux_law('elast', 2)

    def set_params(self, params):
        th = jnp.repeat(params[:, :1], self.fes[0].num_quads, axis=1)
        self.internal_vars = [th]
    # translation / rotation of the mesh generator: take the mesh's own extremes
    P = m.points
    d = P[:, 0]
    left = np.argsort(d)[:max(3, int(.12 * len(P)))]
    right = [int(np.argmax(d))]
    nc = len(m.cells)
    p = zoo.make(m, None, None, 2, [(left, 0, 0.), (left, 1, 0.)], [], cls_extra={
        'get_tensor_map': lambda self: (lambda g, th: (1e-3 + th ** 3) * law(g)), 'set_params': set_params,
        'get_mass_map': lambda self: (lambda u, x, th: jnp.array([0., 1.])),
        'custom_init': lambda self: setattr(self, 'internal_vars', [jnp.ones((nc, self.fes[0].num_quads))])})
    p.fes[0].flex_inds = np.arange(nc)
    fwd = fem.ad_wrapper(p, {'spsolve_solver': {}}, {'spsolve_solver': {}})
    ft = jnp.asarray(zoo.flat_residual(zoo.make(m, None, None, 2, None, [], cls_extra={'get_mass_map': lambda self: (lambda u, x: jnp.array([0., -1.]))}), [np.zeros((len(P), 2))]))
    comp = lambda rho: jnp.sum(ft * fwd(rho)[0].reshape(-1))
    sign = 10. / float(comp(jnp.full((nc, 1), .5)))   # objectives should be of order 1 to 100
    hist = []

    def obj(rho):
        v, g = jax.value_and_grad(lambda r: sign * comp(r))(jnp.asarray(rho))
        hist.append((float(v), np.array(rho, copy=True)))
        return float(v), g

    def cons(rho, it):
        return jnp.array([jnp.mean(jnp.asarray(rho)) / .5 - 1.]), jnp.full((1, nc, 1), 1. / nc / .5)
    out = mma.optimize(p.fes[0], np.full((nc, 1), .5), {'movelimit': .1, 'maxIters': 12}, obj, cons, 1)
    ctx.check(hist[-1][0] < .9 * hist[0][0], 'fem_objective', f'compliance {hist[0][0]} -> {hist[-1][0]}')
    ctx.check(abs(np.mean(out) - .5) < .1 and out.min() >= 0 and out.max() <= 1, 'design_range', f'volume {np.mean(out)}')
