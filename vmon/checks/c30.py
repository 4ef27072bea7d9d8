import numpy as np

PROPERTY = 'C30'
RULE = ('driver cases: the phase-field fracture script and the melt-pool script themselves, run on generated meshes in a scratch copy while a monitor on every solve (and on the histories, tractions and files they produce) repeats '
        'the step with its own assembly; map cases: random strains, damage fields, temperatures, phases and stress states fed through the models\' maps and update functions. Non-trivial: damage, melting and plastic flow occurred.')
REQUIRED = ['split_stress', 'tensile_energy', 'history_max', 'history_monotone', 'damage_equation', 'fracture_equilibrium', 'fracture_load', 'staggered', 'traction', 'fracture_residual', 'damage_residual', 'fracture_files',
            'heat_step', 'heat_residual', 'phase_change', 'melting', 'solidifying', 'return_map', 'yield_bound', 'thermal_strain', 'melt_equilibrium', 'melt_state', 'plastic', 'laser_path', 'melt_files', 'dT']


def cases(tier, rng):
    q = tier == 'quick'
    two = ['QUAD4', 'TRI3', 'QUAD8', 'TRI6']
    out = [{'kind': 'melt', 'n': [8, 3, 2], 'steps': 60}, {'kind': 'fracture', 'n': [6, 6], 'steps': 4}, {'kind': 'fracture', 'n': [4, 7], 'steps': 5}]
    out += [{'kind': 'split', 't': two[k % 4]} for k in range(4 if q else 60)]
    out += [{'kind': 'meltmaps', 't': ['HEX8', 'TET4', 'HEX20'][k % 3]} for k in range(4 if q else 60)]
    if not q:
        out += [{'kind': 'melt', 'n': [10, 4, 3], 'steps': 300}, {'kind': 'melt', 'n': [5, 2, 2], 'steps': 499}] + [{'kind': 'fracture', 'n': [int(a) for a in rng.integers(4, 12, 2)], 'steps': 12} for _ in range(6)]
    return out


class Stop(BaseException):
    pass


def execute(rel, d, solver, gmsh=None):
    """Run an application script from directory d with the library solver replaced by a monitored one; returns its globals."""
    import os, shutil
    import jax_fem.solver as S, jax_fem.generate_mesh as G
    from ..core import REPO
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'example.py')
    shutil.copy(os.path.join(REPO, rel), path)
    g = {'__name__': '__main__', '__file__': path}
    keep = S.solver, G.box_mesh_gmsh
    S.solver = solver
    if gmsh:
        G.box_mesh_gmsh = gmsh(keep[1])
    try:
        exec(compile(open(path).read(), path, 'exec'), g)
    except Stop:
        pass
    finally:
        S.solver, G.box_mesh_gmsh = keep
        import logging
        logging.disable(logging.CRITICAL)
    return g


def run_case(ctx, case):
    from .. import fem, meshes
    rng = np.random.default_rng(case['seed'])
    {'fracture': fracture, 'split': split, 'melt': melt, 'meltmaps': meltmaps}[case['kind']](ctx, case, rng, fem, meshes)


pos = lambda x: np.maximum(x, 0.)
neg = lambda x: np.minimum(x, 0.)


def psi_plus(e, la, mu):
    w = np.linalg.eigvalsh(e)
    return .5 * la * pos(np.trace(e, axis1=-2, axis2=-1)) ** 2 + mu * np.sum(pos(w) ** 2, -1)


def psi_minus(e, la, mu):
    w = np.linalg.eigvalsh(e)
    return .5 * la * neg(np.trace(e, axis1=-2, axis2=-1)) ** 2 + mu * np.sum(neg(w) ** 2, -1)


def split_stress(e, d, la, mu):
    w, V = np.linalg.eigh(e)
    g = (1 - d) ** 2
    tr = np.trace(e, axis1=-2, axis2=-1)
    I = np.eye(e.shape[-1])
    s = 2 * mu * (g[..., None] * pos(w) + neg(w))
    return np.einsum('...ik,...k,...jk->...ij', V, s, V) + (la * (g * pos(tr) + neg(tr)))[..., None, None] * I


def sym(g):
    return .5 * (g + np.swapaxes(g, -1, -2))


class Geo:
    def __init__(self, m, fe):
        from .. import refasm
        self.m = m
        X, W = refasm.quad_points(fe)
        self.N, self.g, self.w, self.x = refasm.cell_geom(m.t, m.points, m.cells, X, W)

    def at(self, u):
        return np.einsum('qn,cnv->cqv', self.N, np.asarray(u)[self.m.cells])

    def grad(self, u):
        return np.einsum('cqnd,cnv->cqvd', self.g, np.asarray(u)[self.m.cells])

    def div_form(self, s):
        """Assembled integral of s : grad v."""
        f = np.zeros((len(self.m.points), s.shape[2]))
        np.add.at(f, self.m.cells, np.einsum('cqvd,cqnd,cq->cnv', s, self.g, self.w))
        return f

    def mass_form(self, s):
        f = np.zeros((len(self.m.points), s.shape[2]))
        np.add.at(f, self.m.cells, np.einsum('cqv,qn,cq->cnv', s, self.N, self.w))
        return f


def damage_system(geo, H, Gc, l):
    m = geo.m
    n = len(m.points)
    A, b = np.zeros((n, n)), np.zeros(n)
    for c, ids in enumerate(m.cells):
        A[np.ix_(ids, ids)] += np.einsum('qad,qbd,q->ab', geo.g[c], geo.g[c], geo.w[c]) * Gc * l + np.einsum('qa,qb,q->ab', geo.N, geo.N, geo.w[c] * (Gc / l + 2 * H[c]))
        b[ids] += geo.N.T @ (geo.w[c] * 2 * H[c])
    return A, b


def fracture_mesh(case, rng, meshes):
    """A notched square in the numbering of a random permutation; QUAD4, unit size centred at the origin."""
    m = meshes.make('QUAD4', rng, n=case['n'], size=[1., 1.], distort=0., permute=True)
    P = m.points - .5
    nx, ny = case['n']
    k = nx // 2
    # a slit: the duplicated nodes are those on a horizontal grid line, left part
    ys = np.unique(np.round(P[:, 1], 9))
    y0 = ys[len(ys) // 2]
    slit = [i for i in range(len(P)) if abs(P[i, 1] - y0) < 1e-9 and P[i, 0] < -.5 + (k - .5) / nx + 1e-9]
    new = {i: len(P) + j for j, i in enumerate(slit)}
    P = np.vstack([P, P[slit]])
    C = m.cells.copy()
    up = P[C].mean(1)[:, 1] > y0
    for c in np.nonzero(up)[0]:
        C[c] = [new.get(int(i), int(i)) for i in C[c]]
    # gentle distortion keeping the straight top and bottom
    s = (1 - 4 * P[:, 1] ** 2) * (1 - 4 * P[:, 0] ** 2)
    P = P + .05 * np.stack([np.sin(3 * P[:, 1] + 1) * s, np.cos(4 * P[:, 0]) * s], 1)
    return type(m)('QUAD4', P, C)


def fracture(ctx, case, rng, fem, meshes):
    import os, meshio
    m = fracture_mesh(case, rng, meshes)
    d = os.path.join(ctx.scratch, 'fracture')
    os.makedirs(os.path.join(d, 'input'), exist_ok=True)
    np.savez(os.path.join(d, 'input/mesh.npz'), points=m.points, cells=m.cells)
    real = fem.solver
    log = []
    state = {'disp': None, 'n': 0}

    def spy(problem, *a, **k):
        fe = problem.fes[0]
        vec = fe.vec
        disp = float(np.asarray(fe.vals_list[-1])[0]) if vec == 2 else None
        if vec == 2 and disp != state['disp']:
            state['disp'] = disp
            state['n'] += 1
            if state['n'] > case['steps']:
                raise Stop()
        iv = [np.array(v) for v in problem.internal_vars]
        bc = [(np.asarray(i), np.asarray(c), np.asarray(v)) for i, c, v in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list)]
        # the script's own accuracy is the library solver's (C10); here it is asked for more so that what is compared is the model
        s = real(problem, solver_options={**(a[0] if a else k.get('solver_options', {})), 'tol': 1e-12, 'rel_tol': 1e-9})
        log.append((vec, disp, iv, bc, np.array(s[0])))
        return s
    g = execute('applications/phase_field_fracture/example.py', d, spy)
    la, mu, Gc, l = g['lmbda'], g['mu'], g['G_c'], g['l']
    ctx.close([mu, la], [g['E'] / (2 * (1 + g['nu'])), g['E'] * g['nu'] / ((1 + g['nu']) * (1 - 2 * g['nu']))], 'split_stress', rtol=1e-12)
    fe = g['problem_u'].fes[0]
    geo = Geo(m, fe)
    n = len(m.points)
    P = m.points
    dcur, H_old, H, hist_prev = np.zeros((n, 1)), np.zeros(geo.w.shape), np.zeros(geo.w.shape), np.zeros(geo.w.shape)
    u_old, d_old = np.zeros((n, 2)), np.zeros((n, 1))
    step, disp_prev, conv, per_step = 0, None, None, []
    u = np.zeros((n, 2))
    bot, top = np.abs(P[:, 1] + .5) < 1e-5, np.abs(P[:, 1] - .5) < 1e-5
    corner = bot & (np.abs(P[:, 0] + .5) < 1e-5)
    want_fix = {(int(i), 1) for i in np.nonzero(bot | top)[0]} | {(int(i), 0) for i in np.nonzero(corner)[0]}
    for vec, disp, iv, bc, s in log:
        if vec == 2:
            if disp != disp_prev:
                if step:
                    per_step.append((u.copy(), dcur.copy(), H.copy()))
                    ctx.check(conv <= 1e-5 * (1 + 1e-6), 'staggered', f'load step {step} was left with a relative change of {conv}')
                step += 1
                H_old = H.copy()
                disp_prev = disp
                ctx.close(disp, step * 1e-4, 'fracture_load', rtol=1e-9)
            else:
                ctx.check(conv > 1e-5 * (1 - 1e-6), 'staggered', f'another iteration after convergence ({conv})')
            fixed = {(int(i), int(c)) for I, C, V in bc for i, c in zip(I, C)}
            ctx.check(fixed == want_fix, 'fracture_load', 'constrained degrees of freedom')
            ctx.close(iv[0], geo.at(dcur), 'fracture_equilibrium', rtol=0, atol=1e-12)
            u = s
            f = geo.div_form(split_stress(sym(geo.grad(u)), geo.at(dcur)[..., 0], la, mu))
            free = np.ones((n, 2), bool)
            for i, c in want_fix:
                free[i, c] = False
            sc = np.max(np.abs(f))
            ctx.close(f[free], 0 * f[free], 'fracture_equilibrium', rtol=0, atol=1e-5 * sc + 2e-6)
            ctx.close(u[top, 1], np.full(top.sum(), disp), 'fracture_load', rtol=0, atol=1e-12)
            ctx.close(u[bot, 1], np.zeros(bot.sum()), 'fracture_load', rtol=0, atol=1e-12)
        else:
            pp = psi_plus(sym(geo.grad(u)), la, mu)
            H = np.maximum(pp, H_old)
            ctx.close(iv[0], H, 'history_max', rtol=1e-9)
            ctx.check(np.all(iv[0] >= H_old - 1e-15), 'history_monotone')
            H = iv[0]
            A, b = damage_system(geo, H, Gc, l)
            dcur_new = np.linalg.solve(A, b)
            ctx.close(s[:, 0], dcur_new, 'damage_equation', rtol=2e-5, atol=1e-10)
            conv = max(np.linalg.norm(u - u_old) / np.linalg.norm(u), np.linalg.norm(s - d_old) / np.linalg.norm(s))
            u_old, d_old, dcur = u.copy(), s.copy(), s
    per_step.append((u.copy(), dcur.copy(), H.copy()))
    tr = [float(t) for t in g['tractions']]
    ctx.check(len(tr) == case['steps'] + 1 and tr[0] == 0., 'traction', f'{len(tr)} recorded tractions for {case["steps"]} load steps')
    for k in range(case['steps']):
        t, react_top = own_traction(m, fe, geo, per_step[k][0], per_step[k][1], lambda p: abs(p[1] - .5) < 1e-5, la, mu)
        ctx.close(tr[k + 1], t[1], 'traction', rtol=1e-5, atol=4e-8 * (la + 2 * mu))
        f = meshio.read(os.path.join(d, f'output/vtk/u_{k + 2:05d}.vtk'))
        ctx.close(f.point_data['sol'].reshape(-1), per_step[k][1][:, 0], 'fracture_files', rtol=1e-6)
        ctx.close(np.asarray(f.point_data['u'])[:, :2], per_step[k][0], 'fracture_files', rtol=1e-6)
    if np.max(dcur) <= 0:
        ctx.fail('damage_equation', 'no damage at all')


def own_traction(m, fe, geo, u, d, pred, la, mu, normal=(0., 1.)):
    from .. import refasm
    faces = refasm.select_faces(fe, m, lambda i: pred(m.points[i]))
    out = np.zeros(2)
    for (c, f), (N, dN, dA, x, nn) in zip(faces, refasm.face_geom(m.t, m.points, m.cells, faces, lambda f: refasm.face_points(fe, f)[0], lambda f: refasm.face_points(fe, f)[1], refasm.lib_face_corners(fe))):
        g = np.einsum('qnd,nv->qvd', dN, u[m.cells[c]])
        s = split_stress(sym(g), (N @ d[m.cells[c]])[:, 0], la, mu)
        out += np.einsum('qij,j,q->i', s, np.array(normal), dA)
    return out, len(faces)


def definitions(ctx, fem, rel, name, prep=None, gmsh=None):
    """The classes of a script, obtained by stopping it at its first solve."""
    import os
    d = os.path.join(ctx.scratch, name)
    os.makedirs(d, exist_ok=True)
    if prep:
        prep(d)

    def stop(*a, **k):
        raise Stop()
    return execute(rel, d, stop, gmsh)


def split(ctx, case, rng, fem, meshes):
    import os
    from .. import zoo
    jnp = fem.np
    small = fracture_mesh({'n': [2, 2]}, rng, meshes)

    def prep(d):
        os.makedirs(os.path.join(d, 'input'), exist_ok=True)
        np.savez(os.path.join(d, 'input/mesh.npz'), points=small.points, cells=small.cells)
    g = definitions(ctx, fem, 'applications/phase_field_fracture/example.py', 'pf', prep)
    la, mu, Gc, l = g['lmbda'], g['mu'], g['G_c'], g['l']
    m = meshes.make(case['t'], rng, n=[2, 2], size=[1., 1.], distort=.15, curved=.03)
    m.points[:] -= .5
    pu = g['Elasticity'](fem.mk(m), vec=2, dim=2, ele_type=m.t)
    pd = g['PhaseField'](fem.mk(m), vec=1, dim=2, ele_type=m.t)
    psi_fn, stress_fn = pu.get_maps()
    stiff = la + 2 * mu
    for k in range(10):
        G = rng.normal(size=(2, 2)) * 10 ** rng.uniform(-4, -1)
        if k == 8:
            G = -abs(G[0, 0]) * np.eye(2)
        e, dd = sym(G), float(rng.uniform(0, 1))
        ctx.close(stress_fn(jnp.asarray(G), jnp.asarray([dd])), split_stress(e, np.array(dd), la, mu), 'split_stress', rtol=1e-6, atol=4e-8 * stiff)
        ctx.close(psi_fn(jnp.asarray(G)), psi_plus(e, la, mu), 'tensile_energy', rtol=1e-9, atol=1e-16)
        V = sym(rng.normal(size=(2, 2)))
        h = 1e-6 * np.linalg.norm(e)
        en = lambda x: (1 - dd) ** 2 * psi_plus(x, la, mu) + psi_minus(x, la, mu)
        fd = (en(e + h * V) - en(e - h * V)) / (2 * h)
        ctx.close(np.sum(np.asarray(stress_fn(jnp.asarray(G), jnp.asarray([dd]))) * V), fd, 'split_stress', rtol=1e-5, atol=1e-5 * stiff * np.linalg.norm(e) + 4e-8 * stiff)
    geo = Geo(m, pu.fes[0])
    for k in range(3):
        a = [1e-4, 1e-2, .1][k]
        u, d = rng.normal(size=(len(m.points), 2)) * a, rng.uniform(0, 1, (len(m.points), 1))
        H0 = rng.uniform(0, 1, geo.w.shape) * stiff * a ** 2 * 10
        H = pu.compute_history(jnp.asarray(u), H0)
        pp = psi_plus(sym(geo.grad(u)), la, mu)
        ctx.close(H, np.maximum(pp, H0), 'history_max', rtol=1e-9)
        ctx.check(np.all(np.asarray(H) >= H0), 'history_monotone')
        pu.internal_vars = [jnp.asarray(geo.at(d))]
        f = geo.div_form(split_stress(sym(geo.grad(u)), geo.at(d)[..., 0], la, mu))
        ctx.close(zoo.flat_residual(pu, [u]), f.reshape(-1), 'fracture_residual', rtol=1e-6, atol=1e-7 * stiff)
        pd.set_params(jnp.asarray(np.asarray(H)))
        Hn = np.asarray(H)
        r = geo.div_form(Gc * l * geo.grad(d)) + geo.mass_form((Gc / l * geo.at(d) - 2 * (1 - geo.at(d)) * Hn[..., None]))
        ctx.close(zoo.flat_residual(pd, [d]), r.reshape(-1), 'damage_residual', rtol=1e-9)
        bnd_faces = m.boundary_faces()
        hi = {int(i) for key in sorted(bnd_faces)[::2] for i in key}
        X = m.points[sorted(hi)]

        def near(p):
            return jnp.min(jnp.sum((jnp.asarray(X) - p) ** 2, 1)) < 1e-14
        t, nf = own_traction(m, pu.fes[0], geo, u, d, lambda p: np.min(np.sum((X - p) ** 2, 1)) < 1e-14, la, mu)
        ctx.close(pu.compute_traction(near, jnp.asarray(u), jnp.asarray(d)), t, 'traction', rtol=1e-5, atol=1e-7 * stiff)


# ---------------------------------------------------------------- melt pool

PH = {'powder': 0, 'liquid': 1, 'solid': 2}


def melt_const(g):
    return {k: float(g[k]) for k in ('Cp', 'rho', 'k', 'Tl', 'h', 'eta', 'SB_constant', 'emissivity', 'T0', 'rb', 'P')}


def ret(gu, s_old, e_old, dT, ph, dim=3):
    """Own radial return; arrays (..., 3, 3)."""
    I = np.eye(dim)
    sol = ph == 2
    E = np.where(sol, 70e9, .7e9)[..., None, None]
    aV = np.where(sol, 1e-5, 0.)[..., None, None]
    e = sym(gu)
    de = e - e_old - aV * dT[..., None, None] * I
    mu, la = E / 2.6, E * .3 / (1.3 * .4)
    tr = s_old + la * np.trace(de, axis1=-2, axis2=-1)[..., None, None] * I + 2 * mu * de
    s = tr - np.trace(tr, axis1=-2, axis2=-1)[..., None, None] / 3 * I
    nrm = np.sqrt(1.5 * np.sum(s * s, (-1, -2)))
    y = pos(nrm - 250e6)
    return tr - (y / np.where(nrm == 0, 1., nrm))[..., None, None] * s, e, y


def heat_system(geo, m, fe, p, C, dt, Told, faces, centre, switch):
    from .. import refasm
    n = len(m.points)
    A, b = np.zeros((n, n)), np.zeros(n)
    for c, ids in enumerate(m.cells):
        M = np.einsum('qa,qb,q->ab', geo.N, geo.N, geo.w[c]) * C['rho'] * C['Cp'] / dt
        A[np.ix_(ids, ids)] += M + C['k'] * np.einsum('qad,qbd,q->ab', geo.g[c], geo.g[c], geo.w[c])
        b[ids] += M @ Told[ids]
    for k in range(2):
        gg = refasm.face_geom(m.t, m.points, m.cells, faces[k], lambda f: refasm.face_points(fe, f)[0], lambda f: refasm.face_points(fe, f)[1], refasm.lib_face_corners(fe))
        for (c, f), (N, _, dA, x, _) in zip(faces[k], gg):
            To = N @ Told[m.cells[c]]
            q = C['h'] * (C['T0'] - To) + C['SB_constant'] * C['emissivity'] * (C['T0'] ** 4 - To ** 4)
            if k == 0:
                q = q + 2 * C['eta'] * C['P'] / (np.pi * C['rb'] ** 2) * np.exp(-2 * ((x[:, 0] - centre[0]) ** 2 + (x[:, 1] - centre[1]) ** 2) / C['rb'] ** 2) * switch
            np.add.at(b, m.cells[c], N.T @ (q * dA))
    return A, b


def melt(ctx, case, rng, fem, meshes):
    import os, meshio
    from .. import refasm
    real = fem.solver
    n_ = case['n']
    log = []

    def shrink(orig):
        def f(Nx, Ny, Nz, Lx, Ly, Lz, data_dir, *a, **k):
            return orig(n_[0], n_[1], n_[2], Lx, Ly, Lz, data_dir, *a, **k)
        return f

    def spy(problem, *a, **k):
        vec = problem.fes[0].vec
        if vec == 1 and sum(1 for e in log if e[0] == 1) >= case['steps']:
            raise Stop()
        iv = [np.array(v) for v in problem.internal_vars]
        sv = [[np.array(v) for v in s] for s in problem.internal_vars_surfaces]
        s = real(problem, *a, **k)
        log.append((vec, iv, sv, np.array(s[0])))
        return s
    d = os.path.join(ctx.scratch, 'melt')
    g = execute('applications/thermal_mechanical/example.py', d, spy, shrink)
    C = melt_const(g)
    fe, fu = g['problem_T'].fes[0], g['problem_u'].fes[0]
    m = meshes_like(meshes, 'HEX8', np.asarray(fe.points), np.asarray(fe.cells))
    geo = Geo(m, fe)
    P = m.points
    L = [.5e-3, .2e-3, .05e-3]
    at = lambda i, v: np.abs(P[:, i] - v) < 1.01e-5
    topn, botn = at(2, L[2]), at(2, 0.)
    walln = at(0, 0.) | at(0, L[0]) | at(1, 0.) | at(1, L[1])
    faces = [refasm.select_faces(fe, m, lambda i: topn[i]), refasm.select_faces(fe, m, lambda i: walln[i])]
    T, T_u = np.full(len(P), C['T0']), np.full(len(P), C['T0'])
    dt = 2e-6
    nq = geo.w.shape[1]
    st = [np.zeros(geo.w.shape + (3, 3)), np.zeros(geo.w.shape + (3, 3)), np.zeros(geo.w.shape), np.zeros(geo.w.shape, int)]
    k, free = 0, np.repeat(~botn[:, None], 3, 1)
    for vec, iv, sv, s in log:
        if vec == 1:
            k += 1
            t = k * dt
            centre = np.array([.25 * L[0] + .5 * t, L[1] / 2, L[2]])
            sw = 1. if t < .5e-3 - 1e-12 else 0.
            ctx.close(sv[0][1], np.broadcast_to(centre, sv[0][1].shape), 'laser_path', rtol=1e-9)
            ctx.close(sv[0][2], np.full(sv[0][2].shape, sw), 'laser_path', rtol=0)
            A, b = heat_system(geo, m, fe, None, C, dt, T, faces, centre, sw)
            want = np.full(len(P), C['T0'])
            fr = np.nonzero(~botn)[0]
            want[fr] = np.linalg.solve(A[np.ix_(fr, fr)], b[fr] - A[np.ix_(fr, np.nonzero(botn)[0])] @ want[botn])
            ctx.close(s[:, 0], want, 'heat_step', rtol=0, atol=1e-4 * (np.max(np.abs(want - C['T0'])) + 1.))
            T = s[:, 0]
        else:
            ctx.check(k % 10 == 0, 'melt_state', f'mechanics solved at thermal step {k}')
            dTq, Tq = geo.at((T - T_u)[:, None])[..., 0], geo.at(T[:, None])[..., 0]
            ph = st[3].copy()
            ph[(st[3] == 0) & (Tq > C['Tl'])] = 1
            ph[(st[3] == 1) & (Tq < C['Tl'])] = 2
            ctx.event('melting', int(np.any((st[3] == 0) & (ph == 1))))
            ctx.event('solidifying', int(np.any((st[3] == 1) & (ph == 2))))
            near = np.abs(Tq - C['Tl']) < 1e-6
            ctx.check(np.array_equal(np.where(near, 0, iv[3].reshape(ph.shape)), np.where(near, 0, ph)), 'phase_change')
            ctx.close(iv[2].reshape(dTq.shape), dTq, 'dT', rtol=0, atol=1e-8 * (1 + np.max(np.abs(dTq))))
            ctx.close(iv[0], st[0], 'melt_state', rtol=1e-8, atol=1e-3)
            ctx.close(iv[1], st[1], 'melt_state', rtol=1e-8, atol=1e-15)
            sig, e, y = ret(geo.grad(s), st[0], st[1], dTq, iv[3].reshape(ph.shape))
            f = geo.div_form(sig)
            ctx.close(f[free], 0 * f[free], 'melt_equilibrium', rtol=0, atol=2e-4 * max(np.max(np.abs(f)), 1e-9) + 2e-6)
            ctx.close(s[botn], 0 * s[botn], 'melt_equilibrium', rtol=0, atol=1e-15)
            if np.any(y > 0):
                ctx.event('plastic')
            st = [sig, e, dTq, iv[3].reshape(ph.shape)]
            T_u = T.copy()
            f = meshio.read(os.path.join(d, f'data/vtk/u_{k:05d}.vtu'))
            ctx.close(f.point_data['u'], s, 'melt_files', rtol=1e-6)
            ctx.close(np.asarray(f.cell_data['phase'][0]).reshape(-1), st[3].max(1), 'melt_files', rtol=0)
            ctx.close(np.asarray(f.cell_data['f_plus'][0]).reshape(-1), y.mean(1), 'melt_files', rtol=1e-5, atol=1.)
            ctx.close(np.asarray(f.cell_data['stress_xx'][0]).reshape(-1), sig[..., 0, 0].mean(1), 'melt_files', rtol=1e-5, atol=1.)
    ctx.check(k == case['steps'], 'heat_step', f'{k} thermal steps')


def meshes_like(meshes, t, P, C):
    import numpy as np
    m = meshes.make(t, np.random.default_rng(0), n=[1, 1, 1])
    return type(m)(t, P, C)


def meltmaps(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    jnp = fem.np
    tiny = lambda orig: (lambda Nx, Ny, Nz, *a, **k: orig(2, 2, 2, *a, **k))
    g = definitions(ctx, fem, 'applications/thermal_mechanical/example.py', 'tm', gmsh=tiny)
    C = melt_const(g)
    m = meshes.make(case['t'], rng, n=[1, 2, 1], size=[4e-5, 4e-5, 4e-5], distort=.12)
    pu = g['Plasticity'](fem.mk(m), vec=3, dim=3, ele_type=m.t)
    geo = Geo(m, pu.fes[0])
    shp = geo.w.shape
    st = [np.asarray(a) for a in pu.internal_vars]
    ctx.check(np.all(st[3] == 0) and all(np.all(a == 0) for a in st[:3]), 'melt_state', 'initial state')
    # phase transitions for every phase and temperature
    for k in range(4):
        ph = rng.integers(0, 3, shp)
        T = rng.uniform(C['T0'], 2 * C['Tl'], (len(m.points), 1))
        Told = rng.uniform(C['T0'], 2 * C['Tl'], (len(m.points), 1))
        s0, e0 = rng.normal(size=shp + (3, 3)), rng.normal(size=shp + (3, 3))
        par = [jnp.asarray(s0), jnp.asarray(e0), jnp.asarray(np.zeros(shp + (1,))), jnp.asarray(ph[..., None].astype(np.int32))]
        out = pu.update_dT_and_phase(jnp.asarray(T - Told), jnp.asarray(T), par)
        Tq = geo.at(T)[..., 0]
        want = ph.copy()
        want[(ph == 0) & (Tq > C['Tl'])] = 1
        want[(ph == 1) & (Tq < C['Tl'])] = 2
        ctx.check(np.array_equal(np.asarray(out[3])[..., 0], want), 'phase_change')
        ctx.event('melting', int(np.any((ph == 0) & (want == 1))))
        ctx.event('solidifying', int(np.any((ph == 1) & (want == 2))))
        ctx.close(np.asarray(out[2])[..., 0], geo.at(T - Told)[..., 0], 'dT', rtol=1e-10)
        ctx.close(out[0], s0, 'melt_state', rtol=0)
        ctx.close(out[1], e0, 'melt_state', rtol=0)
    # stress map, state update and residual
    for k in range(4):
        ph = rng.integers(0, 3, shp)
        a = [1e-4, 2e-3, 1e-2, 3e-3][k]
        u = rng.normal(size=(len(m.points), 3)) * a * 2e-5
        s0 = sym(rng.normal(size=shp + (3, 3))) * [0., 3e7, 1e8, 1e8][k]
        e0 = sym(rng.normal(size=shp + (3, 3))) * a * (k > 0)
        dT = rng.uniform(-800, 800, shp) * (k != 0)
        par = [jnp.asarray(s0), jnp.asarray(e0), jnp.asarray(dT[..., None]), jnp.asarray(ph[..., None].astype(np.int32))]
        gu = geo.grad(u)
        sig, e, y = ret(gu, s0, e0, dT, ph)
        new, info = pu.update_stress_strain(jnp.asarray(u), par)
        sc = np.max(np.abs(sig)) + 1e3
        ctx.close(new[0], sig, 'return_map', rtol=0, atol=1e-9 * sc)
        ctx.close(new[1], e, 'melt_state', rtol=1e-10)
        ctx.close(new[2], par[2], 'melt_state', rtol=0)
        ctx.close(new[3], par[3], 'melt_state', rtol=0)
        ctx.close(np.asarray(info[0]).reshape(shp), y, 'return_map', rtol=0, atol=1e-8 * sc)
        dv = np.asarray(new[0]) - np.trace(np.asarray(new[0]), axis1=-2, axis2=-1)[..., None, None] / 3 * np.eye(3)
        ctx.check(np.all(np.sqrt(1.5 * np.sum(dv ** 2, (-1, -2))) <= 250e6 * (1 + 1e-9)), 'yield_bound')
        if np.any(y > 0):
            ctx.event('plastic')
        pu.set_params(par)
        ctx.close(zoo.flat_residual(pu, [u]), geo.div_form(sig).reshape(-1), 'return_map', rtol=1e-8)
        # free thermal expansion of a solid produces no stress; powder and liquid do not expand
        eT = np.broadcast_to(1e-5 * dT[..., None, None] * np.eye(3), shp + (3, 3))
        _, smap, _ = pu.get_maps()
        f = lambda p: np.asarray(smap(jnp.asarray(eT[0, 0]), jnp.zeros((3, 3)), jnp.zeros((3, 3)), jnp.asarray(dT[0, 0]), p))
        ctx.close(f(2), np.zeros((3, 3)), 'thermal_strain', rtol=0, atol=1e-3)
        if abs(dT[0, 0]) > 1:
            for p in (0, 1):
                ctx.close(f(p), ret(eT[0, 0], np.zeros((3, 3)), np.zeros((3, 3)), np.array(dT[0, 0]), np.array(p))[0], 'thermal_strain', rtol=1e-9)
    # heat residual with both surfaces
    bf = sorted(m.boundary_faces())
    sets = [{int(i) for key in bf[::2] for i in key}, {int(i) for key in bf[1::3] for i in key}]
    pT = g['Thermal'](fem.mk(m), vec=1, dim=3, ele_type=m.t, location_fns=[zoo.in_ids(s) for s in sets])
    fe = pT.fes[0]
    faces = [refasm.select_faces(fe, m, lambda i, s=s: i in s) for s in sets]
    g['dt'] = 2e-6
    for k in range(3):
        T, Told = rng.uniform(300, 2500, (2, len(m.points)))
        centre, sw = m.points.mean(0) + rng.normal(size=3) * 1e-5, [1., 0., .5][k]
        pT.set_params([jnp.asarray(Told[:, None]), jnp.asarray(centre), sw])
        A, b = heat_system(Geo(m, fe), m, fe, pT, C, 2e-6, Told, faces, centre, sw)
        ctx.close(zoo.flat_residual(pT, [T[:, None]]), A @ T - b, 'heat_residual', rtol=0, atol=1e-11 * (np.max(np.abs(A) @ np.abs(T)) + np.max(np.abs(b))))
