import numpy as np

PROPERTY = 'C32'
RULE = ('norm cases: random fields and polynomial truths on random distorted meshes through the norm functions, and the convergence driver on small meshes; moving-mesh cases: the mesh-coordinate gradient along random admissible node motions against fresh '
        'problems on moved meshes; history cases: the two crystal sensitivity scripts run end to end and their gradient is compared with differences of the simulation they differentiate; finite-difference cases: the dendrite script on random small parameter files '
        'against an own copy of the scheme; demonstration cases: the arc-length and boundary-index demonstrations. Non-trivial: nonzero gradients, growth and errors.')
REQUIRED = ['l2_norm', 'h1_norm', 'exact_zero', 'norm_residual', 'driver_norms', 'mesh_residual', 'mesh_gradient', 'mesh_fd', 'mesh_node', 'mesh_driver', 'history_gradient', 'stress_gradient', 'volume_target', 'stress_history', 'fd_dendrite',
            'fd_growth', 'fd_frames', 'fd_rectangular', 'demo_equilibrium', 'demo_arc', 'index_nodes', 'index_faces']


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'history', 'which': 'stress', 'fd': int(not q)}, {'kind': 'history', 'which': 'volume'}, {'kind': 'history', 'which': 'volume', 'amp': 20.}, {'kind': 'meshmain', 'n': 6}]
    out += [{'kind': 'norms', 't': t} for t in (['TET4', 'TET10', 'HEX8', 'HEX20', 'TET4', 'HEX27'] if q else ['TET4', 'TET10', 'HEX8', 'HEX20', 'HEX27'] * 5)]
    out += [{'kind': 'driver', 't': t, 'n': n} for t, n in ([('TET4', 2), ('TET10', 2)] if q else [('TET4', 3), ('TET10', 3), ('HEX8', 2), ('HEX8', 4), ('TET4', 5), ('HEX20', 2)])]
    out += [{'kind': 'moving', 't': t, 'j': k % 2} for k, t in enumerate (['QUAD4', 'TRI3', 'QUAD8'] if q else ['QUAD4', 'TRI3', 'QUAD8', 'TRI6', 'TRI3'] * 5)]
    out += [{'kind': 'dendrite', 'square': k % 2 == 0, 'odd': int(k % 4 > 1)} for k in range(4 if q else 24)]
    out += [{'kind': 'demo'}]
    return out


def run_case(ctx, case):
    from .. import fem, meshes
    rng = np.random.default_rng(case['seed'])
    globals()['do_' + case['kind']](ctx, case, rng, fem, meshes)


def load(ctx, rel, extra=()):
    """Globals of an application script executed (as a module) from a scratch copy with its input files."""
    import os, shutil, jax
    from ..core import REPO
    d = os.path.join(ctx.scratch, os.path.basename(os.path.dirname(rel)) + '_' + os.path.basename(rel)[:-3])
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, os.path.basename(rel))
    shutil.copy(os.path.join(REPO, rel), path)
    src = os.path.join(REPO, os.path.dirname(rel), 'input')
    if os.path.isdir(src) and not os.path.exists(os.path.join(d, 'input')):
        shutil.copytree(src, os.path.join(d, 'input'))
    g = {'__name__': 'application_script', '__file__': path}
    try:
        exec(compile(open(path).read(), path, 'exec'), g)
    finally:
        jax.config.update('jax_enable_x64', True)
        import logging
        logging.disable(logging.CRITICAL)
    return g


class Shim:
    """A module with some attributes replaced."""

    def __init__(self, mod, **kw):
        self.__dict__.update(kw)
        self._mod = mod

    def __getattr__(self, name):
        return getattr(self._mod, name)


# ------------------------------------------------------------------ error norms

def own_norms(fe, m, u, f, df):
    from .. import refasm
    X, W = refasm.quad_points(fe)
    N, G, w, x = refasm.cell_geom(m.t, m.points, m.cells, X, W)
    e = np.einsum('qn,cn->cq', N, u[m.cells]) - f(x)
    g = np.einsum('cqnd,cn->cqd', G, u[m.cells]) - df(x)
    a, b = np.sqrt(np.sum(e ** 2 * w)), np.sqrt(np.sum(np.sum(g ** 2, -1) * w))
    return a, a + b


def do_norms(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    jnp = fem.np
    g = load(ctx, 'applications/convergence_rate/example.py')
    m = meshes.make(case['t'], rng, n=[int(a) for a in rng.integers(1, 3, 3)], size=[1., 1., 1.], distort=.15)
    deg = {'TET4': 1, 'HEX8': 1}.get(m.t, 2)
    c = rng.normal(size=10)

    def poly(d):
        lin = lambda p: c[0] + c[1] * p[..., 0] + c[2] * p[..., 1] + c[3] * p[..., 2]
        if d == 1:
            return lin, lambda p: np.broadcast_to(c[1:4], p.shape)
        q = lambda p: lin(p) + c[4] * p[..., 0] ** 2 + c[5] * p[..., 1] * p[..., 2] + c[6] * p[..., 2] ** 2
        return q, lambda p: np.stack([c[1] + 2 * c[4] * p[..., 0], c[2] + c[5] * p[..., 2], c[3] + c[5] * p[..., 1] + 2 * c[6] * p[..., 2]], -1)
    f, df = poly(deg if m.t.startswith('TET') or deg == 1 else 1)          # always in the space on straight cells
    F = lambda p: jnp.array([f(p)])
    s = lambda p: c[7] * jnp.sin(2 * p[0] + p[1]) + c[8] * jnp.exp(p[2] * .5) * p[0] + c[9]
    sn = lambda x: c[7] * np.sin(2 * x[..., 0] + x[..., 1]) + c[8] * np.exp(x[..., 2] * .5) * x[..., 0] + c[9]
    ds = lambda x: np.stack([2 * c[7] * np.cos(2 * x[..., 0] + x[..., 1]) + c[8] * np.exp(x[..., 2] * .5), c[7] * np.cos(2 * x[..., 0] + x[..., 1]),
                             .5 * c[8] * np.exp(x[..., 2] * .5) * x[..., 0]], -1)
    lap = lambda x: -5 * c[7] * np.sin(2 * x[..., 0] + x[..., 1]) + .25 * c[8] * np.exp(x[..., 2] * .5) * x[..., 0]
    p = g['LinearPoisson'](fem.mk(m), vec=1, dim=3, ele_type=m.t)
    fe = p.fes[0]
    for _ in range(2):
        u = rng.normal(size=len(m.points)) * 10. ** rng.uniform(-2, 2)
        for T, t, dt in ((lambda x: jnp.array([s(x)]), sn, ds), (F, f, df)):
            a, b = own_norms(fe, m, u, t, dt)
            ctx.close(p.compute_l2_norm_error(jnp.asarray(u[:, None]), T), a, 'l2_norm', rtol=1e-9)
            ctx.close(p.compute_h1_norm_error(jnp.asarray(u[:, None]), T), b, 'h1_norm', rtol=1e-9)
    u = f(m.points)
    ctx.close(p.compute_l2_norm_error(jnp.asarray(u[:, None]), F), 0., 'exact_zero', rtol=0, atol=1e-10)
    ctx.close(p.compute_h1_norm_error(jnp.asarray(u[:, None]), F), 0., 'exact_zero', rtol=0, atol=1e-9)
    # the weak form is that of the Poisson problem solved by the true field
    keep = g['true_u_fn']
    try:
        g['true_u_fn'] = lambda x: jnp.array([s(x)])
        p = g['LinearPoisson'](fem.mk(m), vec=1, dim=3, ele_type=m.t)
        u = rng.normal(size=len(m.points))
        X, W = refasm.quad_points(fe)
        N, G, w, x = refasm.cell_geom(m.t, m.points, m.cells, X, W)
        r = np.zeros(len(u))
        np.add.at(r, m.cells, np.einsum('cqd,cqnd,cq->cn', np.einsum('cqnd,cn->cqd', G, u[m.cells]), G, w) + np.einsum('cq,qn,cq->cn', lap(x), N, w))
        ctx.close(zoo.flat_residual(p, [u[:, None]]), r, 'norm_residual', rtol=1e-9)
    finally:
        g['true_u_fn'] = keep


def do_driver(ctx, case, rng, fem, meshes):
    import os
    g = load(ctx, 'applications/convergence_rate/example.py')
    seen, orig, mk = [], g['solver'], g['LinearPoisson']
    g['solver'] = lambda p, *a, **k: (seen.append([p]), seen[-1].append(orig(p, *a, **k)))[0] or seen[-1][1]
    l2, h1 = g['problem'](case['t'], case['n'], os.path.join(ctx.scratch, 'conv'))
    p, sol = seen[0]
    fe = p.fes[0]
    m = meshes.M(case['t'], np.asarray(fe.points), np.asarray(fe.cells))
    c = m.points - .5
    f = lambda x: 1e2 * ((x[..., 0] - .5) ** 3 + 2 * (x[..., 1] - .5) ** 3 + 10 * np.exp(-(x[..., 2] - .5) ** 2))
    df = lambda x: 1e2 * np.stack([3 * (x[..., 0] - .5) ** 2, 6 * (x[..., 1] - .5) ** 2, -20 * (x[..., 2] - .5) * np.exp(-(x[..., 2] - .5) ** 2)], -1)
    u = np.asarray(sol[0])[:, 0]
    a, b = own_norms(fe, m, u, f, df)
    ctx.close(float(l2), a, 'driver_norms', rtol=1e-8)
    ctx.close(float(h1), b, 'driver_norms', rtol=1e-8)
    bd = np.any((np.abs(m.points) < 1e-8) | (np.abs(m.points - 1) < 1e-8), axis=1)
    ctx.close(u[bd], f(m.points[bd]), 'driver_norms', rtol=1e-8)
    z = np.abs(f(m.points)).max()
    i0 = own_norms(fe, m, f(m.points), f, df)
    ctx.check(b <= 1.5 * i0[1] + 1e-9 * z, 'driver_norms', f'error {b} against the interpolation error {i0[1]}')


# ------------------------------------------------------------------ moving mesh

def do_moving(ctx, case, rng, fem, meshes):
    import jax
    from .. import zoo, refasm
    jnp = fem.np
    g = load(ctx, 'applications/differentiable_mesh/example.py')
    n = [int(a) for a in rng.integers(2, 5, 2)]
    m = meshes.make(case['t'], rng, n=n, size=[1., 1.], distort=0.)
    P = m.points
    inner = np.all((P > 1e-6) & (P < 1 - 1e-6), axis=1)
    P = P + inner[:, None] * rng.uniform(-.1, .1, P.shape) / n
    m = type(m)(m.t, P, m.cells)
    sides = [g['left'], g['right'], g['top']]
    bc = [sides, [0, 0, 0], [g['u0'], g['u0'], g['u0_top']]]
    make = lambda Q: g['NonlinearPoisson'](mesh=fem.mk(type(m)(m.t, Q, m.cells)), vec=1, dim=2, ele_type=m.t, dirichlet_bc_info=bc, location_fns=[g['bottom']])
    p = make(P)
    near = lambda a, v: np.abs(a - v) < 1e-6
    on = [near(P[:, 0], 0), near(P[:, 0], 1), near(P[:, 1], 1)]
    want = [set(np.nonzero(o)[0].tolist()) for o in on]
    ctx.check([set(np.asarray(a).tolist()) for a in p.fes[0].node_inds_list] == want, 'mesh_residual', 'constrained nodes')
    for k, v in enumerate((0 * P[:, 0], 0 * P[:, 0], 2 * np.sin(np.pi * P[:, 0]))):
        ctx.close(p.fes[0].vals_list[k], v[np.asarray(p.fes[0].node_inds_list[k])], 'mesh_residual', rtol=1e-9, atol=1e-12)
    # residual of the documented weak form, on the stored and on passed coordinates
    import jax.numpy as J
    ex = lambda x: J.sin(J.pi * x[..., 0]) * (1 + x[..., 1])
    cell = lambda us, gs, x: ([us[0] ** 3 - (J.pi ** 2 * ex(x) + ex(x) ** 3)[..., None]], [gs[0]])
    face = lambda us, gs, x: [J.sin(J.pi * x[..., 0])[..., None]]
    Q = P + np.where((on[0] | on[1] | on[2] | near(P[:, 1], 0))[:, None], 0, rng.normal(size=P.shape) * .01)
    faces = [refasm.select_faces(p.fes[0], m, lambda i: near(P[i, 1], 0))]
    for pts in (P, Q):
        u = rng.normal(size=(len(P), 1))
        p.set_params(jnp.asarray(pts))
        ctx.close(zoo.flat_residual(p, [u]), refasm.residual(p, [m], [u], cell, [face], points=[pts], faces=faces)[0].ravel(), 'mesh_residual', rtol=1e-8)
    # gradient along admissible motions
    w = rng.normal(size=(len(P), 1))
    for J_ in (g['objective_sum_u_squared'], lambda s: jnp.sum(s[0] * w) + jnp.sum(s[0] ** 4))[case['j']:][:1]:
        fwd = g['ad_wrapper'](p)
        val, grad = jax.value_and_grad(lambda x: J_(fwd(x)))(jnp.asarray(P))
        grad = np.asarray(grad)
        free = ~(on[0] | on[1] | on[2] | near(P[:, 1], 0))
        if m.t in ('QUAD4', 'TRI3'):
            d = np.zeros_like(P)
            d[free] = rng.normal(size=(free.sum(), 2))
            bot = near(P[:, 1], 0) & ~on[0] & ~on[1]
            d[bot] = rng.normal(size=(bot.sum(), 2))
            d[on[0] | on[1], 1] = rng.normal(size=(on[0] | on[1]).sum()) * ~(near(P[on[0] | on[1], 1], 0) | near(P[on[0] | on[1], 1], 1))
        else:
            d = np.zeros_like(P)
            d[free] = rng.normal(size=(free.sum(), 2))
        h = 1e-6
        val2 = [float(J_(fem.solver(make(P + s * h * d)))) for s in (1, -1)]
        fd = (val2[0] - val2[1]) / (2 * h)
        ctx.close(np.sum(grad * d), fd, 'mesh_gradient', rtol=1e-4, scale=np.abs(fd) + .02 * np.linalg.norm(grad) * np.linalg.norm(d))
        ctx.close(float(val), float(J_(fem.solver(make(P)))), 'mesh_gradient', rtol=1e-6)
    # the finite-difference helper and the node picker
    node = g['pick_fd_node_on_neumann_edge'](jnp.asarray(P))
    ok = near(P[:, 1], 0) & (P[:, 0] > 1e-4) & (P[:, 0] < 1 - 1e-4)
    dist = np.where(ok, (P[:, 0] - .35) ** 2, np.inf)
    ctx.check(ok[node] and dist[node] <= dist.min() + 1e-9, 'mesh_node', f'{node}')
    ax = int(rng.integers(0, 2))
    Pk = P.copy()
    out = g['fd'].gold_fd_two_independent_problems(P, m.cells, m.t, bc, [g['bottom']], g['NonlinearPoisson'], g['objective_sum_u_squared'], node, ax, 1e-6)
    val = []
    for s in (-1, 1):
        Q = P.copy()
        Q[node, ax] += s * 1e-6
        val.append(float(g['objective_sum_u_squared'](fem.solver(make(Q)))))
    ctx.close(out[1:3], val, 'mesh_fd', rtol=1e-10)
    ctx.close(out[0], (val[1] - val[0]) / 2e-6, 'mesh_fd', rtol=1e-3, scale=abs(out[0]) + 1e-3)
    ctx.check(list(out[3:]) == [len(faces[0])] * 2, 'mesh_fd', 'face counts')
    ctx.check(np.array_equal(P, Pk), 'mesh_fd', 'points changed')
    a, b, e = rng.normal(size=3)
    ctx.close(g['fd'].central(a, b, abs(e)), (a - b) / (2 * abs(e)), 'mesh_fd', rtol=1e-12)


def do_meshmain(ctx, case, rng, fem, meshes):
    """The driver itself on a small mesh: what it saves is the solution, its error and the gradient."""
    g = load(ctx, 'applications/differentiable_mesh/example.py')
    n = case['n']
    orig, saved, made = g['rectangle_mesh'], [], []
    g['rectangle_mesh'] = lambda Nx, Ny, domain_x, domain_y: orig(Nx=n, Ny=n + 1, domain_x=domain_x, domain_y=domain_y)
    g['save_sol'] = lambda fe, sol, path, **k: saved.append((fe, np.asarray(sol), {a: np.asarray(b) for a, b in k.get('point_infos', [])}))
    cls = g['NonlinearPoisson']
    g['main']()
    if not ctx.check(len(saved) == 1, 'mesh_driver', 'nothing saved'):
        return
    fe, u, info = saved[0]
    P = np.asarray(fe.points)
    ctx.close(np.ravel(info['u_exact']), np.sin(np.pi * P[:, 0]) * (1 + P[:, 1]), 'mesh_driver', rtol=1e-9)
    ctx.close(np.ravel(info['abs_err']), np.abs(u[:, 0] - np.ravel(info['u_exact'])), 'mesh_driver', rtol=0, atol=1e-9)
    ctx.check(np.max(np.ravel(info['abs_err'])) < 3. / n ** 2, 'mesh_driver', f"error {np.max(np.ravel(info['abs_err']))}")
    bc = [[g['left'], g['right'], g['top']], [0, 0, 0], [g['u0'], g['u0'], g['u0_top']]]
    make = lambda Q: cls(mesh=fem.Mesh(Q, np.asarray(fe.cells)), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=bc, location_fns=[g['bottom']])
    d = np.zeros_like(P)
    inner = np.all((P > 1e-6) & (P < 1 - 1e-6), axis=1)
    d[inner] = rng.normal(size=(inner.sum(), 2))
    h = 1e-6
    v = [float(np.sum(np.asarray(fem.solver(make(P + s * h * d))[0]) ** 2)) for s in (1, -1)]
    fd = (v[0] - v[1]) / (2 * h)
    ctx.close(np.sum(info['dJ_dxy'] * d), fd, 'mesh_driver', rtol=1e-4, scale=abs(fd) + .02 * np.linalg.norm(info['dJ_dxy']) * np.linalg.norm(d))


# ------------------------------------------------------------------ gradients through a crystal-plasticity history

def do_history(ctx, case, rng, fem, meshes):
    import os, jax
    which = case['which']
    g = load(ctx, f'applications/crystal_plasticity/{which}_sensitivity.py')
    got = {}

    def grad(fn, *a, **k):
        def run(x):
            got['fn'], got['x'], got['g'] = fn, x, jax.grad(fn, *a, **k)(x)
            return got['g']
        return run
    g['jax'] = Shim(jax, grad=grad)
    seen = []
    if 'plot_stress_strain' in g:
        g['plot_stress_strain'] = lambda: None
    target = []
    base = g['CrystalPlasticity']

    class Spy(base):
        def __init__(self, *a, **k):
            seen.append(self)
            base.__init__(self, *a, **k)
            amp = case.get('amp')
            if amp:                                          # a stronger pull, so that slip in the first steps matters for the last
                upd = self.fes[0].update_Dirichlet_boundary_conditions
                up = lambda f: (lambda x: amp * f(x))
                self.fes[0].update_Dirichlet_boundary_conditions = lambda info: upd([info[0], info[1], [up(f) for f in info[2]]])
    g['CrystalPlasticity'] = Spy
    g['problem']()
    if not ctx.check('fn' in got, 'history_gradient', 'no gradient was taken'):
        return
    x = float(got['x'])
    h = 1e-3 if which == 'stress' else 2e-3
    if which == 'volume' or case.get('fd'):
        v = {s: float(got['fn'](x + s * h)) for s in (-1, 1)}
        ctx.close(float(got['g']), (v[1] - v[-1]) / (2 * h), 'history_gradient', rtol=2e-3)
    if which == 'stress':
        ctx.close(float(got['g']), 163.448, 'stress_gradient', rtol=2e-3)          # the value recorded in the script
        out = np.load(os.path.join(os.path.dirname(g['__file__']), 'output', 'stress_sensitivity', 'numpy', 'jax_fem_out.npy'))
        ref = np.loadtxt(os.path.join(os.path.dirname(g['__file__']), 'input', 'stress_sensitivity', 'moose_reference.csv'), delimiter=',')
        got_s = np.interp(out[:, 1], ref[:, 1], ref[:, -1])
        ctx.close(out[:, -1], got_s, 'stress_history', rtol=1e-2)
        ctx.check(np.all(np.diff(out[:, 0]) > 0) and np.allclose(out[:, 1], .5 * ((1 + .01 * out[:, 0]) ** 2 - 1), rtol=1e-8), 'stress_history', 'times and strains')
        ctx.check(np.all(np.diff(out[:, 3]) >= -1e-9) and out[-1, 3] > 60.8, 'stress_history', 'slip resistance hardens')
    else:
        p = seen[0]
        u = rng.normal(size=(8, 3)) * .05
        m = meshes.M('HEX8', np.asarray(p.fes[0].points), np.asarray(p.fes[0].cells))
        from .. import refasm
        X, W = refasm.quad_points(p.fes[0])
        N, G, w, _ = refasm.cell_geom('HEX8', m.points, m.cells, X, W)
        F = np.einsum('cqnd,cnv->cqvd', G, u[m.cells]) + np.eye(3)
        ctx.close(float(p.target_value(fem.np.asarray(u))), (np.sum(np.linalg.det(F) * w) - 1.01) ** 2, 'volume_target', rtol=1e-9)


# ------------------------------------------------------------------ finite-difference dendrite

def own_dendrite(q, steps, chi):
    def sh(a, k, ax):
        b = np.concatenate([np.take(a, [0], ax), a, np.take(a, [-1], ax)], ax)
        return np.take(b, np.arange(a.shape[ax]) + 1 + k, ax)
    gx = lambda a: (sh(a, 1, 0) - sh(a, -1, 0)) / (2 * q['hx'])
    gy = lambda a: (sh(a, 1, 1) - sh(a, -1, 1)) / (2 * q['hy'])
    lap = lambda a: (sh(a, 1, 0) + sh(a, -1, 0) - 2 * a) / q['hx'] ** 2 + (sh(a, 1, 1) + sh(a, -1, 1) - 2 * a) / q['hy'] ** 2

    def bc(a):
        a = a.copy()
        a[0] = a[1]
        a[:, 0] = a[:, 1]
        a[-1] = a[-2]
        a[:, -1] = a[:, -2]
        return a
    nx, ny = q['nx'], q['ny']
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    p = (((i - nx / 2.) ** 2 + (j - ny / 2.) ** 2) < 20.).astype(float)
    T = np.zeros((nx, ny))
    frames = []
    for s in range(steps):
        px, py = gx(p), gy(p)
        th = np.where((px == 0) & (py == 0), 0., np.arctan2(py, px))
        e, de = q['eps_bar'] * (1 + q['delta'] * np.cos(q['J'] * th)), -q['eps_bar'] * q['J'] * q['delta'] * np.sin(q['J'] * th)
        t1 = -gx(e * de * py) + gy(e * de * px) + gx(e ** 2) * px + gy(e ** 2) * py + e ** 2 * lap(p)
        mm = q['alpha'] / np.pi * np.arctan(q['gamma'] * (q['T_eq'] - T))
        pn = bc(p + q['dt'] / q['tau'] * (t1 + p * (1 - p) * (p - .5 + mm) + q['a'] * p * (1 - p) * chi))
        T = bc(T + q['dt'] * lap(T) + q['K'] * (pn - p))
        p = pn
        if (s + 1) % 20 == 0:
            frames.append(p)
    return frames


def do_dendrite(ctx, case, rng, fem, meshes):
    import sys, types, jax
    keep = {k: sys.modules.get(k) for k in ('imageio', 'imageio.v2')}
    io = types.ModuleType('imageio')
    io.v2 = types.ModuleType('imageio.v2')
    sys.modules['imageio'], sys.modules['imageio.v2'] = io, io.v2
    try:
        g = load(ctx, 'applications/dendrite/explicit_fd/example.py')
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    nx = int(rng.integers(16, 26))
    q = dict(J=int(rng.choice([3, 5]) if case.get('odd') else rng.choice([4, 6])), K=float(rng.uniform(.8, 2)), T_eq=1., a=float(rng.uniform(0, .05)), alpha=float(rng.uniform(.5, .95)), delta=float(rng.uniform(.01, .05)), dt=1e-4,
             eps_bar=float(rng.uniform(.008, .015)), gamma=float(rng.uniform(5, 12)), hx=float(rng.uniform(.025, .035)), hy=float(rng.uniform(.025, .035)), nx=nx,
             ny=nx if case['square'] else nx + int(rng.integers(1, 6)), tau=float(rng.uniform(2.5e-4, 4e-4)))
    steps = 61
    q['t_OFF'] = (steps - 1 + .5) * q['dt']
    g['json_parse'] = lambda f: dict(q)
    frames, names = [], []

    class Plt:
        def imshow(self, a, *r, **k):
            frames.append(np.asarray(a, float))

        def savefig(self, path, *r, **k):
            names.append(path)

        def __getattr__(self, name):
            return lambda *a, **k: None
    g['plt'] = Plt()
    g['simulation']()
    chi = np.asarray(jax.random.uniform(jax.random.PRNGKey(0), shape=(q['nx'], q['ny']))) - .5
    want = own_dendrite(q, steps, chi)
    ctx.check(len(frames) == len(want) == len(set(names)), 'fd_frames', f'{len(frames)} frames, {len(set(names))} files')
    for k, (a, b) in enumerate(zip(frames, want)):
        if not ctx.check(a.shape == b.shape, 'fd_dendrite', f'shape {a.shape}'):
            continue
        e = np.abs(a - b)
        ctx.check(np.all(np.isfinite(a)) and np.quantile(e, .97) < 1e-7 and np.mean(e) < 1e-4, 'fd_dendrite', f'frame {k}: {np.quantile(e, .97):.2e} {np.mean(e):.2e}')
    if frames:
        ctx.event('fd_growth', int(frames[-1].sum() != frames[0].sum() and frames[-1].max() > .5))
    ctx.event('fd_rectangular', int(q['nx'] != q['ny']))


# ------------------------------------------------------------------ demonstrations

def do_demo(ctx, case, rng, fem, meshes):
    from .. import refasm
    g = load(ctx, 'applications/arc_length/demo_analytical.py')
    pts = []

    class Plt:
        def Circle(self, c, r, *a, **k):
            pts.append((float(c[0]), float(c[1]), float(r)))

        def __getattr__(self, name):
            return lambda *a, **k: self
    g['plt'] = Plt()
    g['example']()
    big = max(p[2] for p in pts)
    path = [p for p in pts if p[2] == big]
    ctx.check(len(path) >= 3 and path[0][:2] == (0., 0.), 'demo_arc', f'{path}')
    for a, b in zip(path, path[1:]):
        ctx.close(b[1], b[0] - b[0] ** 2, 'demo_equilibrium', rtol=0, atol=2e-6)
        ctx.close(np.hypot(b[0] - a[0], b[1] - a[1]), .2, 'demo_arc', rtol=1e-6)
        ctx.check(b[0] > a[0], 'demo_arc', 'moves on along the path')
    g = load(ctx, 'applications/boundary_index/example.py')
    p = g['problem']
    P = np.asarray(p.fes[0].points)
    near = lambda a, v: np.abs(a - v) < 1e-9
    ctx.check([sorted(np.asarray(a).tolist()) for a in p.fes[0].node_inds_list] == [np.nonzero(near(P[:, 0], v))[0].tolist() for v in (0, 1)], 'index_nodes')
    m = meshes.M('QUAD4', P, np.asarray(p.fes[0].cells))
    for k, v in enumerate((0, 1)):
        want = refasm.select_faces(p.fes[0], m, lambda i: near(P[i, 1], v))
        ctx.check(sorted(map(tuple, np.asarray(p.boundary_inds_list[k]).tolist())) == sorted(want), 'index_faces', f'{want}')
