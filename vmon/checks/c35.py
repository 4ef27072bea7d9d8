import numpy as np

PROPERTY = 'C35'
RULE = ('each case runs one static or load-history driver (Robin Poisson, Stokes, one- and two-variable elasticity, third-medium contact, twisted cube, serendipity cube, finite plasticity, polycrystal, periodic Poisson) from a scratch copy on random small meshes '
        'put in place of its input, while monitors on its solves, parameters and saved files keep their own state and evaluate the documented balance, boundary values, load schedule and reported results. Non-trivial: the balance is broken before the solve.')
REQUIRED = ['robin_balance', 'robin_bc', 'robin_file', 'robin_moved', 'stokes_balance', 'stokes_bc', 'stokes_file', 'stokes_hole', 'stokes_moved', 'stokes_cells', 'vars_balance', 'vars_bc', 'vars_same', 'vars_file', 'vars_moved', 'contact_schedule', 'contact_thetas', 'contact_rotations',
            'contact_guess', 'contact_balance', 'contact_bc', 'contact_moved', 'twist_balance', 'twist_bc', 'twist_file', 'twist_gradients', 'twist_moved', 'serendipity_mesh', 'serendipity_balance', 'serendipity_bc', 'serendipity_file', 'serendipity_moved',
            'plastic_balance', 'plastic_bc', 'plastic_state', 'plastic_file', 'plastic_moved', 'plastic_yielded', 'crystal_setup', 'crystal_balance', 'crystal_bc', 'crystal_state', 'crystal_file', 'crystal_moved', 'periodic_balance', 'periodic_match', 'periodic_bc',
            'periodic_gradient', 'periodic_file', 'periodic_moved']


class Stop(BaseException):
    pass


def cases(tier, rng):
    q = tier == 'quick'
    out = []
    for k in range(1 if q else 8):
        out += [{'kind': 'crystal', 'n': [2, 1, 1] if q else [int(a) for a in rng.integers(1, 3, 3)]}, {'kind': 'plastic', 'which': 'thin_plate', 'n': [3, 3, 1] if k % 2 == 0 else [4, 2, 1]}, {'kind': 'plastic', 'which': 'single_cell', 'n': [1, 1, 1] if k == 0 else [1 + k % 2, 1, 2]},
                {'kind': 'contact', 'steps': 12 if q else 40}, {'kind': 'twist', 'n': [int(a) for a in rng.integers(2, 4, 3)]}, {'kind': 'serendipity', 'n': [int(a) for a in rng.integers(1, 4, 3)]},
                {'kind': 'vars', 'n': [int(a) for a in rng.integers(1, 4, 3)]}]
        out += [{'kind': 'robin'}, {'kind': 'stokes'}, {'kind': 'periodic'}] * (2 if q else 3)
    return out


def run_case(ctx, case):
    from .. import fem, meshes
    rng = np.random.default_rng(case['seed'])
    globals()['do_' + case['kind']](ctx, case, rng, fem, meshes)


def mesh_of(fe, meshes):
    return meshes.M(fe.ele_type, np.asarray(fe.points), np.asarray(fe.cells))


def same_cells(fe, m):
    """The finite element has the points of m and the cells of m, in order, up to the local numbering."""
    C = np.asarray(fe.cells)
    return np.array_equal(np.asarray(fe.points), m.points) and C.shape == m.cells.shape and np.array_equal(np.sort(C, 1), np.sort(m.cells, 1))


def wanted(*groups):
    out = {}
    for mask, v, val in groups:
        for i in np.nonzero(mask)[0]:
            out[(int(i), v)] = float(val[i]) if np.ndim(val) else float(val)
    return out


def prescribed(ctx, name, fe, want, u=None, tol=1e-9):
    """The constraint table of a field and the values of the solved field on it."""
    from .c34 import bc_values
    got = bc_values(fe)
    ok = set(got) == set(want)
    bad = [k for k in want if ok and abs(got[k] - want[k]) > tol * max(1., abs(want[k]))]
    ctx.check(ok and not bad, name, lambda: f'constraints differ: {len(set(got) - set(want))} extra, {len(set(want) - set(got))} missing' + (f', e.g. {bad[0]} is {got[bad[0]]} instead of {want[bad[0]]}' if bad else ''))
    if u is not None and want:
        ctx.close([np.asarray(u)[k] for k in want], list(want.values()), name, rtol=1e-8, atol=1e-8 * max(max(abs(v) for v in want.values()), 1e-3))


def free_of(shape, want):
    f = np.ones(shape, bool)
    for k in want:
        f[k] = False
    return f


def balance(ctx, kind, r, r0, what='', rtol=1e-7, atol=2e-6):
    n, z = np.linalg.norm(r), np.linalg.norm(r0)
    ctx.check(n <= max(atol, rtol * z), kind + '_balance', lambda: f'{what} out of balance {n:.3e}, {z:.3e} before')
    ctx.event(kind + '_moved', int(z > 1e3 * max(n, 1e-12)))


def saved_file(ctx, name, path, values, points, cells=None, field='sol', cell_data=()):
    import meshio, os
    if not ctx.check(os.path.isfile(path), name, 'no file'):
        return
    M = meshio.read(path)
    d = np.asarray(M.point_data[field]).reshape(len(points), -1)
    v = np.asarray(values).reshape(len(points), -1)
    ctx.close(d, np.pad(v, ((0, 0), (0, max(d.shape[1] - v.shape[1], 0)))), name, rtol=1e-5, atol=1e-6 * max(np.max(np.abs(v)), 1e-12))
    ctx.close(M.points[:, :points.shape[1]], points, name, rtol=1e-5, atol=1e-6)
    if cells is not None:
        ctx.check(np.array_equal(M.cells[0].data, cells), name, 'cells')
    for k, w in cell_data:
        ctx.close(np.asarray(M.cell_data[k][0]).reshape(np.shape(w)), w, name, rtol=1e-4, atol=1e-6 * max(np.max(np.abs(w)), 1e-12))


def spy_solver(g, sink):
    """sink(problem, options, solution) after every solve, before(problem, options) may return other options."""
    orig = g['solver']

    def solver(p, *a, **k):
        out = orig(p, *a, **k)
        sink(p, a, k, [np.asarray(s) for s in out])
        return out
    g['solver'] = solver


# ------------------------------------------------------------------ planes

def do_robin(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .c34 import put, flipped, square, recorder
    from .c33 import near
    from .. import refasm
    jnp = fem.np
    g = load(ctx, 'applications/robin_bc/example.py')
    m = square(rng, meshes)
    put(g, 'points_u.npy', m.points)
    put(g, 'cells_u.npy', flipped(rng, m))
    saved, seen = [], []
    recorder(g, saved)

    def sink(p, a, k, s):
        fe = p.fes[0]
        seen.append(s[0])
        ctx.check(same_cells(fe, m), 'robin_bc', 'mesh')
        P = m.points
        want = wanted((near(P[:, 1], 0) | near(P[:, 1], 1), 0, 1.))
        prescribed(ctx, 'robin_bc', fe, want, s[0])
        q = mesh_of(fe, meshes)
        faces = [refasm.select_faces(fe, q, lambda i, x=x: abs(q.points[i][0] - x) < 1e-5) for x in (0., 1.)]
        src = lambda x: x[0] * jnp.sin(5 * jnp.pi * x[1]) + jnp.exp(-((x[0] - .5) ** 2 + (x[1] - .5) ** 2) / .02)
        res = lambda u: refasm.residual(p, [q], [u], lambda us, gs, x: ([jnp.array([-src(x)])], [gs[0]]), [lambda us, gs, x: [5 * us[0] ** 2]] * 2, faces=faces)[0]
        f = free_of(s[0].shape, want)
        balance(ctx, 'robin', res(s[0])[f], res(np.where(f, 0., 1.))[f])
    spy_solver(g, sink)
    g['problem']()
    if ctx.check(len(seen) == len(saved) == 1, 'robin_file', 'one solve and one file'):
        saved_file(ctx, 'robin_file', saved[0][0], seen[0], m.points)


def holed(rng, meshes):
    """TRI6 mesh of the unit square with square holes; no corner lies in one triangle only."""
    n = [int(a) for a in rng.integers(5, 8, 2)]
    X, Y = np.meshgrid(np.linspace(0, 1, n[0] + 1), np.linspace(0, 1, n[1] + 1), indexing='ij')
    P = np.stack([X.ravel(), Y.ravel()], 1)
    idx = np.arange(len(P)).reshape(X.shape)
    gone = set()
    while len(gone) < 2:
        gone.add((int(rng.integers(1, n[0] - 1)), int(rng.integers(1, n[1] - 1))))
        if len(gone) == 2:
            (a, b), (c, d) = gone
            if max(abs(a - c), abs(b - d)) == 1 and abs(a - c) == abs(b - d):
                gone.pop()                      # holes touching in a point
    C = []
    for i in range(n[0]):
        for j in range(n[1]):
            if (i, j) in gone:
                continue
            q = [idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]]
            corner = {(0, 0): 0, (n[0] - 1, n[1] - 1): 0, (n[0] - 1, 0): 1, (0, n[1] - 1): 1}.get((i, j), int(rng.integers(2)))
            C += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if corner == 0 else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
    C = np.array(C)
    h = 1 / max(n)
    inner = np.all((P > 1e-9) & (P < 1 - 1e-9), axis=1)
    P = P + rng.uniform(-.18, .18, P.shape) * h * inner[:, None]
    used, C = np.unique(C, return_inverse=True)
    P, C = P[used], C.reshape(-1, 3)[rng.permutation(len(C.reshape(-1, 3)))]
    p = rng.permutation(len(P))
    Q = np.empty_like(P)
    Q[p] = P
    C3 = p[C]
    P6, C6 = meshes.elevate('TRI6', Q, C3)
    p = rng.permutation(len(P6))
    Q6 = np.empty_like(P6)
    Q6[p] = P6
    return meshes.M('TRI6', Q6, p[C6]), meshes.M('TRI3', Q, C3)


def do_stokes(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .c34 import put, flipped, recorder, orientation
    from .. import refasm
    jnp = fem.np
    g = load(ctx, 'applications/stokes/example.py')
    orientation(ctx, g, rng, 'stokes_cells')
    m, mp = holed(rng, meshes)
    for v, q in (('u', m), ('p', mp)):
        put(g, f'points_{v}.npy', q.points)
        put(g, f'cells_{v}.npy', flipped(rng, q))
    saved, seen = [], []
    recorder(g, saved)
    orig = g['solver']

    def solver(p, *a, **k):
        try:
            out = orig(p, *a, **k)
        except Exception as e:
            if 'converge' not in str(e) and 'PETSc' not in repr(e) and 'error code' not in repr(e):
                raise
            ctx.event('backend_gave_up')
            out = orig(p, solver_options={'spsolve_solver': {}})
        s = [np.asarray(x) for x in out]
        seen.append(s)
        fu, fp = p.fes
        ctx.check(same_cells(fu, m) and same_cells(fp, mp), 'stokes_bc', 'meshes')
        P = m.points
        bnd = np.zeros(len(P), bool)
        bnd[m.boundary_nodes()] = True
        walls, right = bnd & (P[:, 0] > 1e-5) & (P[:, 0] < 1 - 1e-5), np.abs(P[:, 0] - 1) < 1e-5
        ctx.event('stokes_hole', int(np.sum(bnd & np.all((P > 1e-3) & (P < 1 - 1e-3), axis=1))))
        wu = wanted((walls, 0, 0.), (walls, 1, 0.), (right, 0, -np.sin(np.pi * P[:, 1])), (right, 1, 0.))
        wp = wanted((np.abs(mp.points[:, 0]) < 1e-5, 0, 0.))
        prescribed(ctx, 'stokes_bc', fu, wu, s[0])
        prescribed(ctx, 'stokes_bc', fp, wp, s[1])
        qs = [mesh_of(fu, meshes), mesh_of(fp, meshes)]
        I = jnp.eye(2)
        form = lambda us, gs, x: ([0 * us[0], jnp.array([jnp.trace(gs[0])])], [gs[0] + us[1][0] * I, 0 * gs[1]])
        f = [free_of(s[0].shape, wu), free_of(s[1].shape, wp)]
        res = lambda u, q: np.concatenate([r[ff] for r, ff in zip(refasm.residual(p, qs, [u, q], form), f)])
        start = np.zeros_like(s[0])
        for k_, val in wu.items():
            start[k_] = val
        balance(ctx, 'stokes', res(*s), res(start, 0 * s[1]))
        return out
    g['solver'] = solver
    g['problem']()
    if ctx.check(len(seen) == 1 and len(saved) == 2 and saved[0][0] != saved[1][0], 'stokes_file', 'one solve and two files'):
        for (path, fe, *_), v, P in zip(sorted(saved, key=lambda t: len(np.asarray(t[1].points)) != len(m.points)), seen[0], (m.points, mp.points)):
            saved_file(ctx, 'stokes_file', path, v, P)


def do_periodic(ctx, case, rng, fem, meshes):
    import io, contextlib, re, jax
    import meshio
    from .c32 import load, Shim
    from .c34 import square
    from .c33 import near
    from .. import refasm
    jnp = fem.np
    g = load(ctx, 'applications/periodic_bc/example.py')
    m = square(rng, meshes, 'TRI6')
    P = m.points
    g['gmsh_mesh'] = lambda *a, **k: 'none.msh'
    g['meshio'] = Shim(meshio, read=lambda *a, **k: meshio.Mesh(np.c_[P, np.zeros(len(P))], [('triangle6', m.cells)]))
    st = {'calls': [], 'grad': []}
    orig = g['ad_wrapper']

    def ad_wrapper(p, *a, **k):
        fn = orig(p, *a, **k)
        st['p'] = p

        def run(theta):
            out = fn(theta)
            if not isinstance(theta, jax.core.Tracer):
                st['calls'].append((float(theta), np.asarray(out[0])))
            return out
        return run
    g['ad_wrapper'] = ad_wrapper

    def grad(fn, *a, **k):
        G = jax.grad(fn, *a, **k)

        def run(x):
            out = G(x)
            st['grad'].append((float(x), float(out), float(fn(x))))
            return out
        return run
    g['jax'] = Shim(jax, grad=grad)
    out = io.StringIO()
    files = []
    save = g['save_scalar_solution_3d']
    g['save_scalar_solution_3d'] = lambda fe, sol, path: (files.append((path, np.asarray(sol))), save(fe, sol, path))[1]
    with contextlib.redirect_stdout(out):
        g['problem']()
    p = st['p']
    want = wanted((near(P[:, 1], 0) | near(P[:, 1], 1), 0, 0.))
    src = lambda x: x[0] * jnp.sin(5 * jnp.pi * x[1]) + jnp.exp(-((x[0] - .5) ** 2 + (x[1] - .5) ** 2) / .02)
    L, R = np.nonzero(near(P[:, 0], 0))[0], np.nonzero(near(P[:, 0], 1))[0]
    L, R = L[np.argsort(P[L, 1])], R[np.argsort(P[R, 1])]
    f = free_of((len(P), 1), want)[:, 0]
    for theta, u in st['calls']:
        prescribed(ctx, 'periodic_bc', p.fes[0], want, u)
        ctx.close(u[R], u[L], 'periodic_match', rtol=0, atol=1e-10)
        r = refasm.residual(p, [m], [u], lambda us, gs, x: ([jnp.array([-src(x)])], [theta * gs[0]]))[0][:, 0]
        r0 = refasm.residual(p, [m], [0 * u], lambda us, gs, x: ([jnp.array([-src(x)])], [theta * gs[0]]))[0][:, 0]
        for v in (r, r0):
            v[L] += v[R]
            v[R] = 0
        balance(ctx, 'periodic', r[f], r0[f])
    if ctx.check(len(files) == 1, 'periodic_file', 'file'):
        saved_file(ctx, 'periodic_file', files[0][0], st['calls'][0][1], P, field='u')
    # u is inversely proportional to theta
    J = lambda theta: np.sum(st['calls'][0][1] ** 2) * st['calls'][0][0] ** 2 / theta ** 2
    if ctx.check(len(st['grad']) > 0, 'periodic_gradient', 'no gradient'):
        for x, d, v in st['grad']:
            ctx.close(v, J(x), 'periodic_gradient', rtol=1e-7)
            ctx.close(d, -2 * J(x) / x, 'periodic_gradient', rtol=1e-6)
    for word, tol in (('inite', 1e-4), ('utomatic', 1e-5)):
        q = re.search(word + r'[^\n:]*:\s*([-+.0-9e]+)', out.getvalue())
        if q and st['grad']:
            ctx.close(float(q.group(1)), st['grad'][-1][1], 'periodic_gradient', rtol=tol)


# ------------------------------------------------------------------ solids

def small_box(g, rng, n, meshes, seen, t='HEX8'):
    """Replace the script's gmsh box by a renumbered box of n cells and the size it asked for."""
    import meshio

    def make(Nx=None, Ny=None, Nz=None, domain_x=None, domain_y=None, domain_z=None, data_dir=None, ele_type='HEX8', **k):
        m = meshes.make('HEX8', rng, n=n, size=[domain_x, domain_y, domain_z], distort=0.)
        L = np.array([domain_x, domain_y, domain_z])
        inner = np.all((m.points > 1e-9) & (m.points < L - 1e-9), axis=1)
        m = meshes.M('HEX8', m.points + rng.uniform(-.1, .1, m.points.shape) * np.min(L / n) * inner[:, None], m.cells)
        seen.append((m, (Nx, Ny, Nz), L, ele_type))
        return meshio.Mesh(m.points, [('hexahedron', m.cells)])
    for name in ('box_mesh_gmsh', 'box_mesh'):
        if name in g:
            g[name] = make


def elastic(f, u, E=70e3, nu=.3):
    e = f.grad(u)
    e = .5 * (e + np.swapaxes(e, -1, -2))
    la, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    return f.internal(la * np.trace(e, axis1=-2, axis2=-1)[..., None, None] * np.eye(3) + 2 * mu * e)


def do_vars(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .c33 import Form, near
    from .c34 import recorder
    sols = []
    seed = int(rng.integers(1 << 30))
    for which in ('1var', '2vars'):
        g = load(ctx, f'applications/stokes/example_{which}.py')
        ms, saved = [], []
        small_box(g, np.random.default_rng(seed), case['n'], meshes, ms)
        recorder(g, saved)

        def sink(p, a, k, s):
            m = ms[0][0]
            f = Form(p.fes[0], meshes)
            P = m.points
            left, right = near(P[:, 0], 0), near(P[:, 0], 1)
            ctx.check(all(same_cells(fe, m) for fe in p.fes), 'vars_bc', 'mesh')
            c0 = 0
            for fe, v in zip(p.fes, s):
                prescribed(ctx, 'vars_bc', fe, wanted(*[(b, c - c0, .1 if b is right and c == 0 else 0.) for b in (left, right) for c in range(c0, c0 + v.shape[1])]), v)
                c0 += v.shape[1]
            ctx.check(c0 == 3, 'vars_bc', 'components')
            u = np.concatenate(s, 1)
            free = ~(left | right)
            z = np.zeros_like(u)
            z[right, 0] = .1
            balance(ctx, 'vars', elastic(f, u)[free], elastic(f, z)[free])
            if case['n'][0] == 1:
                ctx.event('vars_moved')
            sols.append(u)
            st['parts'] = s
        st = {}
        spy_solver(g, sink)
        g['problem']()
        if ctx.check(len(saved) >= (which == '1var'), 'vars_file', 'file'):
            for k in saved:
                ok = [s for s in st['parts'] if s.shape == k[2].shape]
                ctx.check(len({q[0] for q in saved}) == len(saved), 'vars_file', 'names')
                if ctx.check(len(ok) == 1, 'vars_file', 'field'):
                    saved_file(ctx, 'vars_file', k[0], ok[0], ms[0][0].points, ms[0][0].cells)
    if ctx.check(len(sols) == 2, 'vars_same', 'two solutions'):
        ctx.close(sols[1], sols[0], 'vars_same', rtol=0, atol=1e-9)


def do_twist(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .c33 import Form, near, pk
    from .c34 import recorder
    from .. import refasm
    g = load(ctx, 'applications/nodal_stress/example.py')
    ms, saved, seen = [], [], []
    small_box(g, rng, case['n'], meshes, ms)
    recorder(g, saved)

    def sink(p, a, k, s):
        m, P = ms[0][0], ms[0][0].points
        f = Form(p.fes[0], meshes)
        ctx.check(same_cells(p.fes[0], m), 'twist_bc', 'mesh')
        left, right = near(P[:, 0], 0), near(P[:, 0], 1)
        c, si, y, z = np.cos(np.pi / 3), np.sin(np.pi / 3), P[:, 1] - .5, P[:, 2] - .5
        want = wanted((left, 0, 0.), (left, 1, (y * c - z * si - y) / 2), (left, 2, (y * si + z * c - z) / 2), *[(right, v, 0.) for v in range(3)])
        prescribed(ctx, 'twist_bc', p.fes[0], want, s[0])
        fr = free_of(s[0].shape, want)
        res = lambda u: f.internal(pk(f.grad(u), 10., .3, 3))[fr]
        z0 = np.zeros_like(s[0])
        for k_, v in want.items():
            z0[k_] = v
        balance(ctx, 'twist', res(s[0]), res(.3 * z0))
        seen.append((s[0], p))
    spy_solver(g, sink)
    g['problem']()
    if not ctx.check(len(seen) == len(saved) == 1, 'twist_file', 'one solve and one file'):
        return
    u, p = seen[0]
    saved_file(ctx, 'twist_file', saved[0][0], u, ms[0][0].points, ms[0][0].cells)
    # the nodal gradient operator is exact on linear fields and agrees with the own one at the corners, as a set per cell
    G = np.asarray(g['get_shape_grads_physical'](p))
    m = mesh_of(p.fes[0], meshes)
    A = rng.normal(size=(3, 3))
    lin = m.points @ A.T
    ctx.close(np.einsum('cnv,cqnd->cqvd', lin[m.cells], G), np.broadcast_to(A, (len(m.cells), 8, 3, 3)), 'twist_gradients', rtol=0, atol=1e-9)
    corners = np.array([[i, j, k] for i in (0., 1.) for j in (0., 1.) for k in (0., 1.)])
    W = np.ones(8) / 8
    own = refasm.cell_geom('HEX8', m.points, m.cells, corners, W)[1]
    a, b = np.einsum('cnv,cqnd->cqvd', u[m.cells], G).reshape(len(m.cells), 8, 9), np.einsum('cnv,cqnd->cqvd', u[m.cells], own).reshape(len(m.cells), 8, 9)
    d = np.linalg.norm(a[:, :, None] - b[:, None], axis=-1)
    ctx.check(np.max(d.min(1)) < 1e-9 * (1 + np.max(np.abs(b))) and np.max(d.min(2)) < 1e-9 * (1 + np.max(np.abs(b))), 'twist_gradients', 'nodal displacement gradients')


def do_serendipity(ctx, case, rng, fem, meshes):
    import meshio
    from .c32 import load, Shim
    from .c33 import Form, near
    from .c34 import recorder
    g = load(ctx, 'applications/serendipity/example.py')
    L = rng.uniform(.7, 3, 3)
    m = meshes.make('HEX20', rng, n=case['n'], size=list(L), distort=0.)
    shift = rng.uniform(-5, 5, 3)
    g['meshio'] = Shim(meshio, read=lambda *a, **k: meshio.Mesh(m.points + shift, [('hexahedron20', m.cells)]))
    saved, seen = [], []
    recorder(g, saved)

    def sink(p, a, k, s):
        fe = p.fes[0]
        P = np.asarray(fe.points)
        ctx.close(P, m.points, 'serendipity_mesh', rtol=0, atol=1e-9)
        ctx.check(np.array_equal(np.asarray(fe.cells), m.cells), 'serendipity_mesh', 'cells')
        left, right = near(P[:, 0], 0), near(P[:, 0], L[0])
        prescribed(ctx, 'serendipity_bc', fe, wanted(*[(left, c, 0.) for c in range(3)], *[(right, c, .1 * L[0] if c == 0 else 0.) for c in range(3)]), s[0])
        f = Form(fe, meshes)
        free = ~(left | right)
        z = np.zeros_like(s[0])
        z[right, 0] = .1 * L[0]
        balance(ctx, 'serendipity', elastic(f, s[0])[free], elastic(f, z)[free])
        seen.append(s[0])
    spy_solver(g, sink)
    g['problem']()
    if ctx.check(len(seen) == len(saved) == 1, 'serendipity_file', 'one solve and one file'):
        saved_file(ctx, 'serendipity_file', saved[0][0], seen[0], m.points, m.cells)


# ------------------------------------------------------------------ histories

def do_plastic(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .c33 import near
    from .c34 import recorder
    from .c23 import own_force
    from .. import refasm
    which = case['which']
    g = load(ctx, f'applications/finite_plasticity/{which}.py')
    ms, saved, sols, norms = [], [], [], []
    small_box(g, rng, case['n'], meshes, ms)
    recorder(g, saved)
    thin = which == 'thin_plate'
    scales = .2 * np.r_[np.linspace(0, 1, 5), np.linspace(1, 0, 5)] if thin else .01 * np.r_[np.linspace(0, 1, 11), np.linspace(1, 0, 11)]
    st = {}
    orig = g['solver']

    def solver(p, *a, **k):
        m, L = ms[0][0], ms[0][2]
        P, n = m.points, len(sols)
        X, W = refasm.quad_points(p.fes[0])
        if not sols:
            ctx.check(same_cells(p.fes[0], m) and np.allclose(L, [10, 10, .25] if thin else [1, 1, 1]), 'plastic_bc', 'mesh')
            nc, nq = len(m.cells), len(W)
            st['s'] = [np.tile(np.eye(3), (nc, nq, 1, 1)), np.tile(np.eye(3), (nc, nq, 1, 1)), np.zeros((nc, nq))]
        o = k.get('solver_options') or (a[0] if a else {})
        if 'initial_guess' in o and sols:
            ctx.check(np.array_equal(np.asarray(o['initial_guess'][0]), sols[-1]), 'plastic_state', f'step {n}: the guess is not the previous solution')
        for x, y, t in zip(p.internal_vars, st['s'], (1e-10, 1e-7, 1e-8)):
            ctx.close(x, y, 'plastic_state', rtol=0, atol=t * 10)
        out = orig(p, *a, **k)
        u = np.asarray(out[0])
        s = scales[n] if n < len(scales) else np.nan
        if thin:
            walls = near(P[:, 0], 0) | near(P[:, 0], 10) | near(P[:, 1], 0) | near(P[:, 1], 10)
            d = np.min([P[:, 0], 10 - P[:, 0], P[:, 1], 10 - P[:, 1]], axis=0) / 5
            want = {**wanted(*[(walls, c, 0.) for c in range(3)]), **wanted((near(P[:, 2], .25), 2, -s * 10 * d))}
        else:
            r = lambda x: np.all(np.abs(P - np.array(x)) < 1e-5, axis=1)
            want = wanted((r([0, 0, 0]), 0, 0.), (r([0, 0, 0]), 1, 0.), (r([1, 0, 0]), 1, 0.), (near(P[:, 2], 0), 2, 0.), (near(P[:, 2], 1), 2, s))
        prescribed(ctx, 'plastic_bc', p.fes[0], want, u, tol=1e-7)
        f, new, sig, ys = own_force(m, u, st['s'], X, W)
        fr = free_of(u.shape, want)
        z = np.zeros_like(u)
        for k_, v in want.items():
            z[k_] = v
        r0 = own_force(m, np.where(fr, sols[-1] if sols else 0., z), st['s'], X, W)[0]
        # the yield switch can make the tolerance of the last Newton correction visible in the force
        q, q0 = np.linalg.norm(f[fr]), np.linalg.norm(r0[fr])
        ctx.check(q <= max(2e-6, 1e-7 * q0), 'plastic_balance', lambda: f'step {n}: out of balance {q:.3e}, {q0:.3e} before')
        ctx.event('plastic_moved', int(q0 > 1e-3))
        ctx.event('plastic_yielded', int(np.sum(ys > 0)))
        st['s'] = new
        sols.append(u)
        norms.append(np.linalg.norm(sig.mean(1), axis=(1, 2)))
        return out
    g['solver'] = solver
    g['simulation']()
    ctx.check(len(sols) == len(scales), 'plastic_bc', f'{len(sols)} steps')
    if ctx.check(len(saved) == len(sols) == len({s[0] for s in saved}), 'plastic_file', 'one file per step'):
        for s, u, v in zip(saved, sols, norms):
            # the nodal coordinates of the gmsh stand-in, cell data of the step
            saved_file(ctx, 'plastic_file', s[0], u, ms[0][0].points, ms[0][0].cells, cell_data=[('s_norm', v)])


def do_crystal(ctx, case, rng, fem, meshes):
    import meshio, os
    from .c32 import load, Shim
    from .c33 import near
    from .c34 import recorder
    from .c24 import own, Crystal, schmid, I3, G0
    from scipy.spatial.transform import Rotation
    from .. import refasm
    g = load(ctx, 'applications/crystal_plasticity/polycrystal_neper.py')
    n = case['n']
    m = meshes.make('HEX8', rng, n=n, size=[.1, .1, .1], distort=0.)
    L = np.array([.1] * 3)
    inner = np.all((m.points > 1e-9) & (m.points < L - 1e-9), axis=1)
    m = meshes.M('HEX8', m.points + rng.uniform(-.1, .1, m.points.shape) * np.min(L / n) * inner[:, None], m.cells)
    grains = rng.choice(np.r_[1, 100, rng.integers(1, 101, 3)], len(m.cells))
    g['meshio'] = Shim(meshio, read=lambda *a, **k: meshio.Mesh(m.points, [('hexahedron', m.cells)], cell_data={'gmsh:physical': [grains], 'gmsh:geometrical': [grains * 0]}))
    quats = np.loadtxt(os.path.join(os.path.dirname(g['__file__']), 'input', 'polycrystal_neper', 'quaternions.txt'))[:10, 1:]
    saved, sols, sig, st = [], [], [], {}
    recorder(g, saved)
    P = m.points
    disps = np.linspace(0, .0002, 11)
    base, real = g['CrystalPlasticity'], g['onp'].random.randint
    # oris of the grains as drawn by the script
    drawn = []

    class Rand:
        def randint(self, *a, **k):
            drawn.append(np.asarray(real(*a, **k)))
            return drawn[-1]

        def __getattr__(self, name):
            return getattr(np.random, name)
    g['onp'] = Shim(np, random=Rand())
    orig = g['solver']

    def solver(p, *a, **k):
        n = len(sols)
        X, W = refasm.quad_points(p.fes[0])
        if not sols:
            info = p.additional_info
            inds = np.asarray(info[1])
            ctx.check(same_cells(p.fes[0], m), 'crystal_setup', 'mesh')
            ctx.close(info[0], quats, 'crystal_setup', rtol=0)
            ok = inds.shape == grains.shape and inds.min() >= 0 and inds.max() < 10
            if drawn:
                ok = ok and len(drawn[0]) == 100 and np.array_equal(inds, drawn[0][grains - 1])
            ctx.check(ok and all(len(set(inds[grains == x])) == 1 for x in grains), 'crystal_setup', 'orientations of the grains')
            R = Rotation.from_quat(quats[:, [1, 2, 3, 0]]).as_matrix()
            nc, nq = len(m.cells), len(W)
            st['s'] = [np.tile(I3, (nc, nq, 1, 1)), np.full((nc, nq, 12), G0), np.zeros((nc, nq, 12)), np.repeat(R[inds][:, None], nq, axis=1)]
            st['inds'] = inds
        ctx.close(float(p.dt), .02, 'crystal_setup', rtol=1e-9)
        K = Crystal(schmid(ctx, p), float(p.dt))
        for x, y, t in zip(p.internal_vars, st['s'], (1e-8, 1e-5, 1e-8, 1e-8)):
            ctx.close(x, y, 'crystal_state', rtol=0, atol=t)
        o = k.get('solver_options') or (a[0] if a else {})
        if 'initial_guess' in o and sols:
            ctx.check(np.array_equal(np.asarray(o['initial_guess'][0]), sols[-1]), 'crystal_state', f'step {n}: the guess is not the previous solution')
        out = orig(p, *a, **k)
        u = np.asarray(out[0])
        edge = near(P[:, 0], 0) & near(P[:, 1], 0)
        d = disps[n + 1] if n + 1 < len(disps) else np.nan
        want = wanted((edge & near(P[:, 2], .1), 1, 0.), (edge & near(P[:, 2], .1), 2, 0.), (edge & near(P[:, 2], 0), 1, 0.), (near(P[:, 0], 0), 0, 0.), (near(P[:, 0], .1), 0, d))
        prescribed(ctx, 'crystal_bc', p.fes[0], want, u)
        ctx.close(u[near(P[:, 0], .1), 0], np.full(near(P[:, 0], .1).sum(), d), 'crystal_bc', rtol=1e-7, atol=1e-12)
        f, _, new, avg = own(m, u, K, st['s'], X, W)
        fr = free_of(u.shape, want)
        # solver tolerance 1e-6 in force; forces here are stress times (0.05)^2
        q = np.linalg.norm(f[fr])
        ctx.check(q <= 2e-6, 'crystal_balance', lambda: f'step {n}: out of balance {q:.3e}')
        ctx.event('crystal_moved', int(np.linalg.norm(f[~fr]) > 1e-3))
        st['s'] = new
        sols.append(u)
        sig.append(avg[:, 0, 0])
        return out
    g['solver'] = solver
    g['problem']()
    ctx.check(len(sols) == 10, 'crystal_bc', f'{len(sols)} steps')
    if ctx.check(len(saved) == len(sols) == len({s[0] for s in saved}), 'crystal_file', 'one file per step'):
        for s, u, v in zip(saved, sols, sig):
            saved_file(ctx, 'crystal_file', s[0], u, P, m.cells, cell_data=[('sigma', v), ('cell_ori_inds', st['inds'].astype(float))])


def rot2(F):
    """Rotation of the plane polar decomposition, embedded in space."""
    a = np.arctan2(F[..., 1, 0] - F[..., 0, 1], F[..., 0, 0] + F[..., 1, 1])
    R = np.zeros(F.shape[:-2] + (3, 3))
    R[..., 0, 0] = R[..., 1, 1] = np.cos(a)
    R[..., 1, 0], R[..., 0, 1], R[..., 2, 2] = np.sin(a), -np.sin(a), 1.
    return R


def energy2(F, theta, Ro):
    """Energy density of the solid (theta = 1) and the third medium (theta = 0) at plane deformation gradients."""
    K, G, kR = 1. / (3 * .2), 1. / 2.8, 1e-2
    J = F[..., 0, 0] * F[..., 1, 1] - F[..., 0, 1] * F[..., 1, 0]
    iso = .5 * G * (J ** (-2. / 3) * (np.sum(F * F, axis=(-1, -2)) + 1.) - 3)
    D = np.eye(3) - rot2(F) @ np.swapaxes(Ro, -1, -2)
    t = np.asarray(theta)[:, None]
    return np.where(t > .5, .5 * K * np.log(J) ** 2 + iso, 1e-6 * iso + .5 * kR * np.sum(D * D, axis=(-1, -2)))


def do_contact(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .c33 import Form, near
    from .c34 import recorder
    g = load(ctx, 'applications/third_medium_contact/example.py')
    calls, st = [], {}
    orig = g['ad_wrapper']

    def ad_wrapper(p, *a, **k):
        opts = k.get('solver_options', a[0] if a else {})
        # the PETSc of this machine may lack the factorization the script asks for: a direct solver of the same systems
        if opts.pop('petsc_solver', None) is not None:
            opts['spsolve_solver'] = {}
        fn = orig(p, *a, **k)
        f = Form(p.fes[0], meshes)
        P = f.m.points
        fr = np.ones(P.shape, bool)
        cen = f.x.mean(1)
        own_th = ((cen[:, 0] < 1000) & ((cen[:, 0] < 100) | (cen[:, 1] > 400) | (cen[:, 1] < 100))).astype(float)

        def Fs(u):
            F = np.tile(np.eye(3), f.w.shape + (1, 1))
            F[..., :2, :2] += f.grad(u)
            return F

        def run(prm):
            n = len(calls)
            if n == case['steps']:
                raise Stop()
            scale, th, Ro = prm
            ctx.close(float(scale), 1.2 * n / 200, 'contact_schedule', rtol=1e-9, atol=1e-12)
            ctx.check(np.array_equal(np.asarray(th), np.repeat(own_th[:, None], f.w.shape[1], 1)), 'contact_thetas', 'solid and medium')
            prev = calls[-1] if calls else np.ones(P.shape)
            guess = np.asarray(opts['initial_guess'][0]) if 'initial_guess' in opts else prev
            ctx.check(np.array_equal(guess, prev), 'contact_guess', f'step {n}: the guess is not the previous solution')
            R = rot2(Fs(prev)[..., :2, :2]).mean(1, keepdims=True)
            ctx.close(Ro, np.broadcast_to(R, np.shape(Ro)), 'contact_rotations', rtol=0, atol=2e-5)
            out = fn(prm)
            u = np.asarray(out[0])
            s = 1.2 * n / 200
            want = wanted((near(P[:, 0], 0), 0, 0.), (near(P[:, 0], 0), 1, 0.), (near(P[:, 0], 1000) & near(P[:, 1], 500), 1, -s * 500))
            prescribed(ctx, 'contact_bc', p.fes[0], want, u, tol=1e-7)
            free = free_of(P.shape, want)
            # derivative of the own energy along two random admissible directions, against the size of what cancels in it
            Fu = Fs(u)[..., :2, :2]
            Rq = np.broadcast_to(R, Fu.shape[:2] + (3, 3))
            for _ in range(2):
                v = rng.normal(size=P.shape) * free
                gv = f.grad(v)
                h = 1e-5 / np.max(np.abs(gv))
                d = (energy2(Fu + h * gv, own_th, Rq) - energy2(Fu - h * gv, own_th, Rq)) / (2 * h) * f.w
                tot, mag = abs(d.sum()), np.abs(d).sum()
                # the script perturbs the deformation by up to 1e-6 (stress up to 4e-6)
                floor = 4e-6 * np.sum(np.abs(gv) * f.w[..., None, None] * own_th[:, None, None, None])
                ctx.check(tot <= 1e-3 * mag + floor, 'contact_balance', lambda: f'step {n}: energy slope {tot:.3e} of {mag:.3e}, noise {floor:.1e}')
                ctx.event('contact_moved', int(mag > 20 * floor))
            calls.append(u)
            return out
        return run
    g['ad_wrapper'] = ad_wrapper
    try:
        g['problem']()
    except Stop:
        pass
    ctx.check(len(calls) == case['steps'], 'contact_schedule', f'{len(calls)} steps')
