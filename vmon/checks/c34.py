import numpy as np

PROPERTY = 'C34'
RULE = ('each case runs one transient driver script (wave, thermo-elasticity, both finite-element dendrites, explicit waveguide) from a scratch copy, on random small meshes or parameter files put in place of its input, while monitors on its solves and saved '
        'files keep their own copy of the state and evaluate the documented step equation with the step size and state of that step. Non-trivial: every checked step changed the fields.')
REQUIRED = ['wave_step', 'wave_cells', 'thermo_cells', 'wave_boundary', 'wave_files', 'thermo_step', 'thermo_boundary', 'thermo_times', 'thermo_files', 'implicit_step', 'implicit_start', 'implicit_files', 'explicit_frames', 'explicit_start', 'explicit_files', 'rectangular', 'waveguide_frames',
            'waveguide_energy', 'waveguide_probe', 'waveguide_report', 'wave_moved', 'thermo_moved', 'implicit_moved', 'explicit_moved', 'waveguide_moved']


class Stop(BaseException):
    pass


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'waveguide'}]
    for k in range(2 if q else 16):
        out += [{'kind': 'wave', 'steps': 8}, {'kind': 'thermo', 'steps': 6 if q else 30}, {'kind': 'implicit', 'square': k % 2, 'steps': 23 + 3 * k if q else 57 + k}, {'kind': 'explicit', 'square': k % 2, 'steps': 104 + 3 * k if q else 391 + k}]
    return out


def run_case(ctx, case):
    from .. import fem, meshes
    rng = np.random.default_rng(case['seed'])
    globals()['do_' + case['kind']](ctx, case, rng, fem, meshes)


def put(g, name, a):
    """Overwrite a numpy input file of the scratch copy."""
    import os
    f = os.path.join(os.path.dirname(g['__file__']), 'input', 'numpy', name)
    assert os.path.isfile(f), f
    np.save(f, a)


def flipped(rng, m):
    """The cells of a triangle mesh with some of them listed clockwise."""
    C = np.array(m.cells)
    k = rng.random(len(C)) < .4
    C[k] = C[k][:, [0, 2, 1]] if m.t == 'TRI3' else C[k][:, [0, 2, 1, 5, 4, 3]]
    return C.astype(np.int32)


def orientation(ctx, g, rng, name):
    """Triangles of any shape and size come back counter-clockwise, with the same corners (and each mid node on its edge)."""
    for t, size in (('TRI3', 1.), ('TRI3', 1e-2), ('TRI3', 1e-4), ('TRI6', 1.), ('TRI6', 1e-3)):
        n = 12
        A = rng.random((n, 3, 2))
        A[: n // 3, 1] = A[: n // 3, 0] + .05 * (A[: n // 3, 1] - A[: n // 3, 0])
        P = A * size
        e1, e2 = P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]
        ok = np.abs(e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0]) > 1e-4 * size ** 2
        P = P[ok]
        if t == 'TRI6':
            P = np.concatenate([P, (P + np.roll(P, -1, axis=1)) / 2], 1)
        C = np.arange(P.shape[0] * P.shape[1]).reshape(P.shape[:2])
        pts = P.reshape(-1, 2)
        out = np.asarray(g['transform_cells'](C, pts, t))
        Q = pts[out]
        e1, e2 = Q[:, 1] - Q[:, 0], Q[:, 2] - Q[:, 0]
        good = out.shape == C.shape and np.array_equal(np.sort(out, 1), C) and np.all(e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0] > 0)
        if good and t == 'TRI6':
            good = np.allclose(Q[:, 3:], (Q[:, :3] + np.roll(Q[:, :3], -1, axis=1)) / 2, rtol=0, atol=1e-12 * size)
        ctx.check(bool(good), name, f'{t} triangles of size {size}')


def recorder(g, saved):
    save = g['save_sol']

    def spy(fe, sol, path, *a, **k):
        saved.append((path, fe, np.array(sol), a, k))
        return save(fe, sol, path, *a, **k)
    g['save_sol'] = spy


def bc_values(fe):
    return {(int(n), int(v)): float(x) for N, V, X in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list) for n, v, x in zip(np.asarray(N).ravel(), np.asarray(V).ravel(), np.asarray(X).ravel())}


def balanced(ctx, name, r, free, r0, what=''):
    n, z = np.linalg.norm(r[free]), np.linalg.norm(r0[free])
    ctx.check(n <= max(2e-6, 1e-7 * z), name, lambda: f'{what}: out of balance {n:.3e}, {z:.3e} before the step')
    ctx.event(name[:-4] + 'moved', int(z > 1e-5))


def files_match(ctx, name, saved, sols, points, sample=None):
    """Distinct existing files, one per field, that hold the fields."""
    import meshio
    ctx.check(len({s[0] for s in saved}) == len(saved) == len(sols), name, lambda: f'{len(saved)} files, {len({s[0] for s in saved})} names, {len(sols)} fields')
    for k, (s, u) in enumerate(zip(saved, sols)):
        if not ctx.check(s[2].shape == np.shape(u) and np.array_equal(s[2], u), name, f'field {k} ({s[0].split("/")[-1]}) is not the solution of its step'):
            continue
        if sample is None or k in sample:
            M = meshio.read(s[0])
            d = np.asarray(M.point_data['sol']).reshape(len(points), -1)
            v = np.asarray(u).reshape(len(points), -1)
            # a legacy .vtk file holds a plane vector with a third component 0
            ctx.close(d, np.pad(v, ((0, 0), (0, max(d.shape[1] - v.shape[1], 0)))), name, rtol=1e-5, atol=1e-12)
            ctx.close(M.points[:, :points.shape[1]], points, name, rtol=0, atol=1e-6)


# ------------------------------------------------------------------ wave

def square(rng, meshes, t='TRI3', n=None, L=(1., 1.), distort=.2):
    """A rectangle from the origin whose inner nodes are moved."""
    n = [int(a) for a in rng.integers(4, 9, 2)] if n is None else n
    m = meshes.make(t, rng, n=n, size=list(L), distort=0.)
    P, L = m.points, np.array(L)
    inner = np.all((P > 1e-9) & (P < L - 1e-9), axis=1)
    corner = np.zeros(len(P), bool)
    corner[m.cells[:, :3]] = True
    D = rng.uniform(-1, 1, P.shape) * distort * np.min(L / n) * (inner & corner)[:, None]
    P = P + D
    if t == 'TRI6':
        for i in range(3):
            P[m.cells[:, 3 + i]] = (P[m.cells[:, i]] + P[m.cells[:, (i + 1) % 3]]) / 2
    return meshes.M(t, P, m.cells)


def do_wave(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .. import refasm
    from .c29 import at_quads
    g = load(ctx, 'applications/wave/example.py')
    m = square(rng, meshes)
    put(g, 'points.npy', m.points)
    put(g, 'cells.npy', flipped(rng, m))
    orientation(ctx, g, rng, 'wave_cells')
    orig, saved, sols = g['solver'], [], []
    recorder(g, saved)
    bd = np.any((np.abs(m.points) < 1e-5) | (np.abs(m.points - 1) < 1e-5), axis=1)
    z = np.zeros((len(m.points), 1))
    cd = (5000 / 250000) ** 2

    def solver(p, *a, **k):
        if len(sols) == case['steps']:
            raise Stop()
        out = orig(p, *a, **k)
        u = np.asarray(out[0])
        h = [z, z] + sols
        fe = p.fes[0]
        form = lambda us, gs, x, a, b: ([us[0] - 2 * b + a], [cd * gs[0]])
        res = lambda v: refasm.residual(p, [m], [v], form, ivs=[at_quads(m, fe, h[-2]), at_quads(m, fe, h[-1])])[0]
        balanced(ctx, 'wave_step', res(u), ~bd, res(np.where(bd[:, None], 1., h[-1])), f'step {len(sols)}')
        ctx.close(u[bd], np.ones((bd.sum(), 1)), 'wave_boundary', rtol=0, atol=1e-9)
        ctx.check({k: v for k, v in bc_values(fe).items()} == {(int(i), 0): 1. for i in np.nonzero(bd)[0]}, 'wave_boundary', 'prescribed values')
        sols.append(u)
        return out
    g['solver'] = solver
    try:
        g['main_fns']()
    except Stop:
        pass
    ctx.check(len(sols) == case['steps'], 'wave_step', f'{len(sols)} steps seen')
    files_match(ctx, 'wave_files', saved, sols, m.points, {0, len(sols) - 1})


# ------------------------------------------------------------------ thermo-elasticity

def plate(rng, meshes):
    """A quarter plate with a hole of radius .1."""
    na, nr = 2 * int(rng.integers(2, 5)), int(rng.integers(3, 6))
    s = np.linspace(0, 1, nr + 1) ** 1.3
    a = np.linspace(0, np.pi / 2, na + 1)
    d = np.stack([np.cos(a), np.sin(a)], 1)
    d[np.abs(d) < 1e-12] = 0
    out = d / np.max(d, axis=1, keepdims=True)
    P = ((1 - s)[:, None, None] * .1 * d + s[:, None, None] * out).reshape(-1, 2)
    C = []
    for i in range(nr):
        for j in range(na):
            q = [i * (na + 1) + j, (i + 1) * (na + 1) + j, (i + 1) * (na + 1) + j + 1, i * (na + 1) + j + 1]
            C += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if rng.random() < .5 else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
    p = rng.permutation(len(P))
    Q = np.empty_like(P)
    Q[p] = P
    return meshes.M('TRI3', Q, p[np.array(C)])


def do_thermo(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .. import refasm
    from .c29 import at_quads
    jnp = fem.np
    g = load(ctx, 'applications/thermal_mechanical_full/example.py')
    m = plate(rng, meshes)
    put(g, 'points.npy', m.points)
    put(g, 'cells.npy', flipped(rng, m))
    orientation(ctx, g, rng, 'thermo_cells')
    orig, saved, sols = g['solver'], [], []
    recorder(g, saved)
    P = m.points
    left, bot, hole = np.abs(P[:, 0]) < 1e-5, np.abs(P[:, 1]) < 1e-5, np.abs(np.sum(P ** 2, 1) - .01) < 1e-3
    E, nu, T0, al = 70e3, .3, 293., 2.31e-5
    mu, la = E / 2.6, E * nu / (1.3 * .4)
    kap, C, k = al * (2 * mu + 3 * la), 910e-6 * 2700., 237e-6
    dts = np.diff(np.logspace(1, 4, 201))
    I = jnp.eye(2)
    free_u = np.stack([~left, ~bot], 1)

    def form(us, gs, x, g_old, T_old, dt):
        e, e0 = .5 * (gs[0] + gs[0].T), .5 * (g_old + g_old.T)
        T = us[1][0]
        sig = la * jnp.trace(e) * I + 2 * mu * e - kap * T * I
        return [jnp.zeros_like(us[0]), jnp.array([C / dt * (T - T_old[0]) + kap * T0 * jnp.trace(e - e0) / dt])], [sig, k * gs[1]]

    def solver(p, *a, **kw):
        if len(sols) == case['steps']:
            raise Stop()
        out = orig(p, *a, **kw)
        u, T = [np.asarray(s) for s in out]
        u0, To = sols[-1] if sols else (np.zeros_like(u), np.zeros_like(T))
        fu, fT = p.fes
        g0 = at_quads(m, fu, u0, True)
        dt = dts[len(sols)]
        res = lambda a, b: refasm.residual(p, [m, m], [a, b], form, ivs=[g0, at_quads(m, fT, To), np.full(g0.shape[:2], dt)])
        r, r0 = res(u, T), res(u0, np.where(hole[:, None], 10., To))
        n, z = np.sqrt(np.sum(r[0][free_u] ** 2) + np.sum(r[1][~hole] ** 2)), np.sqrt(np.sum(r0[0][free_u] ** 2) + np.sum(r0[1][~hole] ** 2))
        ctx.check(n <= max(2e-6, 1e-6 * z), 'thermo_step', lambda: f'step {len(sols)}: out of balance {n:.3e}, {z:.3e} before')
        # the step size must matter to the answer and be the scheduled one
        alt = refasm.residual(p, [m, m], [u, T], form, ivs=[g0, at_quads(m, fT, To), np.full(g0.shape[:2], dt * 1.02)])
        ctx.event('thermo_times', int(np.linalg.norm(alt[1][~hole]) > 10 * max(n, 1e-9)))
        ctx.event('thermo_moved', int(z > 1e-5))
        ctx.close(u[left, 0], np.zeros(left.sum()), 'thermo_boundary', rtol=0, atol=1e-9)
        ctx.close(u[bot, 1], np.zeros(bot.sum()), 'thermo_boundary', rtol=0, atol=1e-9)
        ctx.close(T[hole, 0], np.full(hole.sum(), 10.), 'thermo_boundary', rtol=1e-8)
        ctx.check(len(bc_values(fu)) == left.sum() + bot.sum() and len(bc_values(fT)) == hole.sum(), 'thermo_boundary', 'number of constraints')
        sols.append((u, T))
        return out
    g['solver'] = solver
    try:
        g['main_fns']()
    except Stop:
        pass
    ctx.check(len(sols) == case['steps'], 'thermo_step', f'{len(sols)} steps seen')
    for v in (0, 1):
        files_match(ctx, 'thermo_files', [s for s in saved if s[2].shape[1] == 2 - v], [s[v] for s in sols], P, {0, len(sols) - 1})
    ctx.check(len({s[0] for s in saved}) == 2 * len(sols), 'thermo_files', 'names')


# ------------------------------------------------------------------ dendrites

def dendrite_input(g, case, rng, dt, tau):
    import os, json
    f = os.path.join(os.path.dirname(g['__file__']), 'input', 'json', 'params.json')
    old = json.load(open(f))
    nx = int(rng.integers(12, 18))
    q = dict(J=int(rng.choice([4, 5, 6])), K=float(rng.uniform(.8, 2)), T_eq=1., a=float(rng.uniform(.005, .05)), alpha=float(rng.uniform(.5, .95)), delta=float(rng.uniform(.01, .05)), dt=dt, eps_bar=float(rng.uniform(.008, .015)),
             gamma=float(rng.uniform(5, 12)), hx=float(rng.uniform(.027, .033)), nx=nx, ny=nx if case['square'] else nx + int(rng.integers(1, 5)), tau=tau)
    q['hy'] = q['hx'] if case['square'] else float(rng.uniform(.027, .033))
    q['t_OFF'] = (case['steps'] - 1 + .5) * dt
    assert set(q) >= set(old), set(old) - set(q)
    json.dump(q, open(f, 'w'))
    return q


def seed_field(q, P):
    return ((P[:, 0] - q['nx'] * q['hx'] / 2) ** 2 + (P[:, 1] - q['ny'] * q['hy'] / 2) ** 2 < 20. * q['hx'] ** 2).astype(float)[:, None]


def noise(n):
    import jax
    return np.asarray(jax.random.uniform(jax.random.PRNGKey(0), shape=(n,))) - .5


def do_implicit(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .. import refasm
    from .c29 import at_quads, aniso, react
    jnp = fem.np
    g = load(ctx, 'applications/dendrite/implicit_fem/example.py')
    q = dendrite_input(g, case, rng, .0002, float(rng.uniform(2.5e-4, 4e-4)))
    ctx.event('rectangular', int(q['nx'] != q['ny']))
    orig, saved, sols = g['solver'], [], []
    recorder(g, saved)
    st = {}

    def solver(p, *a, **kw):
        fe = p.fes[0]
        m = st.setdefault('m', meshes.M('QUAD4', np.asarray(fe.points), np.asarray(fe.cells)))
        if not sols:
            ext = m.points.max(0) - m.points.min(0)
            ctx.close(ext, [q['nx'] * q['hx'], q['ny'] * q['hy']], 'implicit_start', rtol=1e-9)
            ctx.check(len(m.cells) == q['nx'] * q['ny'], 'implicit_start', 'cells')
            st['s0'] = (seed_field(q, m.points), np.zeros((len(m.points), 1)))
        p0, T0 = sols[-1] if sols else st['s0']
        out = orig(p, *a, **kw)
        pn, Tn = [np.asarray(s) for s in out]
        if len(sols) % 4 == 0:
            chi = np.repeat(noise(len(m.cells))[:, None], len(np.asarray(fe.quad_weights)), 1)

            def form(us, gs, x, p_o, T_o, g_o, c):
                a, b = react(jnp, q, p_o[0], T_o[0], c)
                Sp = a + b + q['tau'] * (us[0][0] - p_o[0]) / q['dt']
                ST = (us[1][0] - T_o[0]) / q['dt'] - q['K'] * (us[0][0] - p_o[0]) / q['dt']
                return [jnp.array([Sp]), jnp.array([ST])], [aniso(jnp, q, gs[0][0], g_o[0])[None], gs[1]]
            g_o = at_quads(m, fe, p0, True)
            res = lambda a, b: np.concatenate([r.ravel() for r in refasm.residual(p, [m, m], [a, b], form, ivs=[at_quads(m, fe, p0), at_quads(m, fe, T0), g_o, chi])])
            r, r0 = res(pn, Tn), res(p0, T0)
            # where the old phase field is flat, the direction of its gradient is rounding noise, and the anisotropic coefficient with it
            pc = p0[m.cells][:, :, 0]
            flat = (np.ptp(pc, axis=1) < 1e-9 * np.max(np.abs(pc), axis=1)) & np.any(pc != 0, axis=1)
            free = np.ones(len(r), bool)
            free[np.unique(m.cells[flat])] = False
            ctx.event('flat_rows', int(np.sum(~free)))
            balanced(ctx, 'implicit_step', r, free, r0, f'step {len(sols)}')
        sols.append((pn, Tn))
        return out
    g['solver'] = solver
    g['simulation']()
    ctx.check(len(sols) == case['steps'], 'implicit_step', f'{len(sols)} steps')
    ctx.check(np.array_equal(saved[0][2], st['s0'][0]), 'implicit_start', 'first frame')
    files_match(ctx, 'implicit_files', saved, [st['s0'][0]] + [sols[k - 1][0] for k in range(10, len(sols) + 1, 10)], st['m'].points, {0, len(saved) - 1})


def do_explicit(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .c33 import Form
    g = load(ctx, 'applications/dendrite/explicit_fem/example.py')
    q = dendrite_input(g, case, rng, .0001, float(rng.uniform(2.5e-4, 4e-4)))
    ctx.event('rectangular', int(q['nx'] != q['ny']))
    saved = []
    recorder(g, saved)
    g['simulation']()
    ctx.check(len(saved) == 1 + case['steps'] // 100 and len({s[0] for s in saved}) == len(saved), 'explicit_files', f'{len(saved)} frames')
    if not saved:
        return
    fe = saved[0][1]
    f = Form(fe, meshes)
    m, N, G, w = f.m, f.N, f.g, f.w
    p, T = seed_field(q, m.points)[:, 0], np.zeros(len(m.points))
    ctx.check(np.array_equal(np.asarray(saved[0][2])[:, 0], p), 'explicit_start', 'first frame')
    ctx.close(m.points.max(0) - m.points.min(0), [q['nx'] * q['hx'], q['ny'] * q['hy']], 'explicit_start', rtol=1e-9)
    chi = noise(len(m.cells))[:, None]

    def asm(s, v=None):
        r = np.zeros(len(m.points))
        np.add.at(r, m.cells, np.einsum('cq,qn,cq->cn', s, N, w) + (np.einsum('cqd,cqnd,cq->cn', v, G, w) if v is not None else 0))
        return r
    lump = asm(np.ones(w.shape))
    k = 0
    for s in range(case['steps']):
        pq, Tq = np.einsum('qn,cn->cq', N, p[m.cells]), np.einsum('qn,cn->cq', N, T[m.cells])
        gp, gT = np.einsum('cqnd,cn->cqd', G, p[m.cells]), np.einsum('cqnd,cn->cqd', G, T[m.cells])
        th = np.where(np.all(gp == 0, axis=-1), 0., np.arctan2(gp[..., 1], gp[..., 0])) - np.pi / 2
        e, de = q['eps_bar'] * (1 + q['delta'] * np.cos(q['J'] * th)), -q['eps_bar'] * q['delta'] * q['J'] * np.sin(q['J'] * th)
        fl = (e * de)[..., None] * np.stack([-gp[..., 1], gp[..., 0]], -1) + (e ** 2)[..., None] * gp
        mm = q['alpha'] / np.pi * np.arctan(q['gamma'] * (q['T_eq'] - Tq))
        re = -pq * (1 - pq) * (pq - .5 + mm)
        noisy = -q['a'] * pq * (1 - pq) * chi
        dp = -q['dt'] / q['tau'] * asm(re + noisy, fl) / lump
        dT = -q['dt'] * (asm(q['K'] / q['tau'] * re, gT + q['K'] / q['tau'] * fl)) / lump
        p, T = p + dp, T + dT
        if (s + 1) % 100 == 0:
            k += 1
            ctx.check(len(saved) > k and np.max(np.abs(saved[k][2][:, 0] - p)) < 1e-6, 'explicit_frames', lambda: f'frame {k}: {np.max(np.abs(saved[k][2][:, 0] - p)) if len(saved) > k else "missing"}')
            ctx.event('explicit_moved', int(np.max(np.abs(p - saved[0][2][:, 0])) > .1))
    import meshio
    M = meshio.read(saved[-1][0])
    ctx.close(np.ravel(M.point_data['sol']), saved[-1][2][:, 0], 'explicit_files', rtol=1e-5, atol=1e-12)


# ------------------------------------------------------------------ waveguide

def do_waveguide(ctx, case, rng, fem, meshes):
    import io, contextlib, re
    import scipy.sparse as sp
    from .c32 import load
    from .c33 import Form
    g = load(ctx, 'applications/explicit_dynamics/example.py')
    saved, lines = [], []
    recorder(g, saved)

    class Plt:
        def plot(self, x, y, *a, **k):
            lines.append((np.array(x), np.array(y)))

        def __getattr__(self, name):
            return lambda *a, **k: None
    g['plt'] = Plt()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g['main']()
    text = out.getvalue()
    f = Form(saved[0][1], meshes)
    P, n = f.m.points, len(f.m.points)
    mu, la = 1 / 2.6, .3 / (1.3 * .4)
    c = np.sqrt(la + 2 * mu)
    # stiffness by own quadrature
    Ke = np.einsum('cqai,cqbj,cq->caibj', f.g, f.g, f.w) * la + np.einsum('cqaj,cqbi,cq->caibj', f.g, f.g, f.w) * mu
    dd = np.einsum('cqak,cqbk,cq->cab', f.g, f.g, f.w) * mu
    for i in range(3):
        Ke[:, :, i, :, i] += dd
    dof = (f.m.cells[:, :, None] * 3 + np.arange(3)).reshape(len(f.m.cells), -1)
    nd = dof.shape[1]
    K = sp.csr_matrix((Ke.reshape(len(dof), nd, nd).ravel(), (np.repeat(dof, nd, 1).ravel(), np.tile(dof, (1, nd)).ravel())), shape=(3 * n, 3 * n))
    lump = np.zeros(n)
    np.add.at(lump, f.m.cells, np.einsum('qn,cq->cn', f.N, f.w))
    M = np.repeat(lump, 3)
    L = P.max(0)
    near = lambda a, v: np.abs(a - v) < 1e-8
    fix = np.stack([near(P[:, 0], 0), near(P[:, 1], 0) | near(P[:, 1], L[1]), near(P[:, 2], 0) | near(P[:, 2], L[2])], 1).ravel()
    k = np.pi / (2 * L[0])
    mode = np.sin(k * P[:, 0])
    u = np.zeros((n, 3))
    u[:, 0] = 1e-3 * mode
    u = u.ravel()
    period = 2 * np.pi / (c * k)
    h = [np.min(np.diff(np.unique(np.round(P[:, i], 9)))) for i in range(3)]
    # the ratio is an integer on this mesh: rounding decides which side the ceiling falls
    ratio, steps = period / (.5 * min(h) / c), len(lines[0][0]) - 1
    ctx.check(np.ceil(ratio - 1e-6) <= steps <= np.ceil(ratio + 1e-6), 'waveguide_frames', f'{steps} steps, stable ratio {ratio:.6f}')
    dt = period / steps
    acc = lambda v: np.where(fix, 0., -(K @ v) / M)
    prev = np.where(fix, 0., u + .5 * dt ** 2 * acc(u))
    H = [u]
    for _ in range(steps):
        u, prev = np.where(fix, 0., 2 * u - prev + dt ** 2 * acc(u)), u
        H.append(u)
    H = np.array(H)
    ctx.check(len(saved) == len(range(0, steps + 1, 10)) == len({s[0] for s in saved}), 'waveguide_frames', f'{len(saved)} frames of {steps} steps')
    for i, s in enumerate(saved):
        ctx.close(s[2].ravel(), H[min(10 * i, steps)], 'waveguide_frames', rtol=0, atol=1e-10)
    V = np.zeros_like(H)
    V[1:-1] = (H[2:] - H[:-2]) / (2 * dt)
    V[-1] = (3 * H[-1] - 4 * H[-2] + H[-3]) / (2 * dt)
    kin, strain = .5 * V ** 2 @ M, .5 * np.einsum('ti,ti->t', H, (K @ H.T).T)
    t = np.arange(steps + 1) * dt
    if ctx.check(len(lines) == 5 and all(len(a) == len(b) == steps + 1 for a, b in lines), 'waveguide_energy', 'curves'):
        for (a, b), w in zip(lines[:3], (kin, strain, kin + strain)):
            ctx.close(b, w, 'waveguide_energy', rtol=1e-8, scale=np.max(kin + strain))
            ctx.close(a, t, 'waveguide_energy', rtol=1e-10)
        j = int(np.argmin(np.linalg.norm(P - [L[0], L[1] / 2, L[2] / 2], axis=1)))
        ctx.close(lines[3][1], H[:, 3 * j], 'waveguide_probe', rtol=0, atol=1e-10)
        ctx.close(lines[4][1], 1e-3 * np.cos(c * k * t) * mode[j], 'waveguide_probe', rtol=0, atol=1e-10)
    amp = H[:, ::3] @ (lump * mode)
    i = int(np.flatnonzero(amp[1:] <= 0)[0])
    t0 = t[i] + amp[i] / (amp[i] - amp[i + 1]) * dt
    err = H[:, ::3] - 1e-3 * np.cos(c * k * t)[:, None] * mode
    want = {'heoretical': c, 'easured': np.pi / (2 * t0) / k, 'L2 error': np.max(np.sqrt(err ** 2 @ lump)) / (1e-3 * np.sqrt(lump @ mode ** 2)), 'drift': np.max(np.abs((kin + strain) / (kin[0] + strain[0]) - 1))}
    for key, v in want.items():
        q = re.search(key + r'[^\n]*?=\s*([-+.0-9e]+)', text)
        if q:
            ctx.close(float(q.group(1)), v, 'waveguide_report', rtol=2e-3 if 'e' in q.group(1) else 1e-7)
        else:
            ctx.event('waveguide_report')
    ctx.event('waveguide_moved', int(np.max(np.abs(H[-1] - H[0])) < np.max(np.abs(H[steps // 2] - H[0]))))
