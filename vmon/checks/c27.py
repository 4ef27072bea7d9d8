import numpy as np

PROPERTY = 'C27'
RULE = ('step cases: random 3D meshes, density fields, previous and incremental displacements fed through set_params, the residual, the tangent and push_F_prev of the updated Lagrangian problem; path cases: whole load paths '
        'run through end_to_end_ul with different numbers of increments while a monitor on the forward calls records every parameter set and solution; grad cases: reverse-mode gradients over all increments. Oracle: an own '
        'total-Lagrangian neo-Hookean evaluation on the reference mesh. Non-trivial: the previous deformation was not the identity.')
REQUIRED = ['step_residual', 'step_tangent', 'push_forward', 'free_F_prev', 'default_density', 'tags', 'target', 'bc_increment', 'bc_rows', 'repeat_set', 'step_points', 'step_equilibrium', 'step_dirichlet', 'step_F', 'objective',
            'split_independent', 'gradient', 'clipped', 'files', 'aux']
MU, LAM = 1., 2.
I3 = np.eye(3)


def cases(tier, rng):
    q = tier == 'quick'
    ts = ['HEX8', 'TET4', 'HEX20', 'TET10', 'HEX27']
    out = [{'kind': 'path', 'n': [3, 1, 1], 'steps': [7, 4], 't': 'HEX8'}, {'kind': 'path', 'n': [4, 1, 1], 'steps': [12, 9], 't': 'TET4'}, {'kind': 'path', 'n': [4, 1, 1], 'steps': [9, 6], 't': 'HEX8'}]
    out += [{'kind': 'grad', 'n': [2, 1, 1], 'steps': 3, 't': 'HEX8'}, {'kind': 'grad', 'n': [2, 1, 1], 'steps': 5, 't': 'TET4'}, {'kind': 'grad', 'n': [3, 1, 1], 'steps': 4, 't': 'HEX8'}]
    out += [{'kind': 'step', 't': ts[k % 5], 'amp': [.05, .3, .12][k % 3]} for k in range(10 if q else 120)]
    if not q:
        out += [{'kind': 'path', 'n': [int(a) for a in rng.integers(1, 5, 3)], 'steps': [int(a) for a in rng.integers(6, 14, 2)], 't': ['HEX8', 'TET4', 'HEX20'][k % 3]} for k in range(24)]
        out += [{'kind': 'grad', 'n': [int(a) for a in rng.integers(1, 4, 3)], 'steps': int(rng.integers(3, 8)), 't': ['HEX8', 'TET4'][k % 2]} for k in range(24)]
    return out


def run_case(ctx, case):
    from .. import fem
    import importlib
    M = importlib.import_module('applications.updated_lagrangian.example')
    M.OUTPUT_DIR = ctx.scratch
    rng = np.random.default_rng(case['seed'])
    try:
        {'step': step_case, 'path': path_case, 'grad': grad_case}[case['kind']](ctx, case, rng, fem, M)
    except Diverged:
        ctx.event('diverged')           # a load step without an equilibrium Newton can find: nothing is promised there


def kirchhoff(F):
    J = np.linalg.det(F)
    return MU * (F @ np.swapaxes(F, -1, -2) - I3) + LAM * np.log(J)[..., None, None] * I3


class Ref:
    """Total-Lagrangian evaluation on the reference mesh."""

    def __init__(self, m, fe):
        from .. import refasm
        self.m = m
        self.X, self.W = refasm.quad_points(fe)
        _, self.g, self.jxw, _ = refasm.cell_geom(m.t, m.points, m.cells, self.X, self.W)

    def F(self, u):
        return np.einsum('cnv,cqnd->cqvd', np.asarray(u)[self.m.cells], self.g) + I3

    def force(self, u, rho):
        F = self.F(u)
        P = kirchhoff(F) @ np.swapaxes(np.linalg.inv(F), -1, -2) * rho[:, None, None, None] ** 3
        f = np.zeros((len(self.m.points), 3))
        np.add.at(f, self.m.cells, np.einsum('cqvd,cqnd,cq->cnv', P, self.g, self.jxw))
        return f


def want_target(P, lam, tags):
    th = lam * np.pi
    u = np.zeros_like(P)
    r = tags == 2
    u[r, 0] = -.1 * lam
    u[r, 1] = P[r, 1] * (np.cos(th) - 1) - P[r, 2] * np.sin(th)
    u[r, 2] = P[r, 1] * np.sin(th) + P[r, 2] * (np.cos(th) - 1)
    return u


def tags_of(P):
    t = np.zeros(len(P), int)
    t[np.abs(P[:, 0]) < 1e-6] = 1
    t[np.abs(P[:, 0] - 1.) < 1e-6] = 2
    return t


def build(ctx, fem, M, m):
    jnp = fem.np
    tags = tags_of(m.points)
    got = M.boundary_node_tags(jnp.asarray(m.points))
    ctx.close(got, tags, 'tags', rtol=0)
    p = M.UpdatedLagrangian(mesh=fem.mk(m), vec=3, dim=3, ele_type=m.t, dirichlet_bc_info=M.build_dirichlet_bc_by_tag(got), location_fns=None, additional_info=(got,))
    return p, tags


def beam(t, n, rng, distort):
    """A mesh of [0,1] x [-.1,.1]^2 whose end faces stay plane, with random numbering."""
    from .. import meshes
    m = meshes.make(t, rng, n=n, size=[1., .2, .2], distort=0., permute=True)
    P = m.points.copy()
    P[:, 1:] -= .1
    s = 1 / n[0]
    a, b = rng.uniform(-1, 1, 2) * distort
    inner = P[:, 0] * (1 - P[:, 0])
    P[:, 1] += a * .1 * inner * np.sin(4 * P[:, 0] + 1)        # smooth map of the plane cross sections
    P[:, 2] += b * .1 * inner
    P[:, 0] += distort * .5 * s * inner * (P[:, 1] * 5 + .3)
    m.points[:] = P
    return m


def step_case(ctx, case, rng, fem, M):
    from .. import zoo
    jnp = fem.np
    n = [2, 1, 1] if case['t'] != 'HEX8' else [2, int(rng.integers(1, 3)), 1]
    m = beam(case['t'], n, rng, .5)
    p, tags = build(ctx, fem, M, m)
    fe = p.fes[0]
    R = Ref(m, fe)
    nc, nq = R.jxw.shape
    P = m.points
    # custom location of the ends
    x0, x1 = float(P[:, 0].min()) - .3, float(P[:, 0].max()) + .7
    Q = P.copy()
    Q[tags == 1, 0], Q[tags == 2, 0] = x0, x1
    ctx.close(M.boundary_node_tags(Q, x_left=x0, x_right=x1), tags, 'tags', rtol=0)
    for lam in (0., .3, 1., float(rng.uniform(-1, 2))):
        ctx.close(M.nodal_displacement_total_target(P, lam, jnp.asarray(tags)), want_target(P, lam, tags), 'target', rtol=0, atol=1e-14)
    h = np.array([1 / n[0], .2 / n[1], .2 / n[2]])
    A = rng.normal(size=(3, 3)) * .3
    field = lambda a: rng.normal(size=P.shape) * h.min() * a + P @ (A * a).T
    for k in range(3):
        a = case['amp'] * (1 if k else .3)
        for _ in range(40):
            u, du = field(a), field(a)
            if np.linalg.det(R.F(u)).min() > .15 and np.linalg.det(R.F(u + du)).min() > .15:
                break
            a *= .7
        rho = rng.uniform(.02, 1., nc)
        lam, lp = float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
        Fp = R.F(u)
        par = {'points': jnp.asarray(P + u), 'lam': lam, 'lam_prev': lp, 'F_prev': jnp.asarray(Fp), 'rho': jnp.asarray(rho)}
        p.set_params(par)
        f = R.force(u + du, rho)
        sc = np.max(np.abs(f))
        r = zoo.flat_residual(p, [du])
        ctx.close(r, f.reshape(-1), 'step_residual', rtol=1e-9)
        ctx.close(M.push_F_prev(fe, jnp.asarray(P + u), jnp.asarray(du), jnp.asarray(Fp)), R.F(u + du), 'push_forward', rtol=1e-10)
        # Dirichlet increments of this step
        inc = want_target(P, lam, tags) - want_target(P, lp, tags)
        seen = {}
        for ni, vi, vl in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
            for i, c, v in zip(np.asarray(ni), np.asarray(vi), np.asarray(vl)):
                seen[int(i), int(c)] = float(v)
        ctx.check(set(seen) == {(int(i), c) for i in np.nonzero(tags)[0] for c in range(3)}, 'bc_increment', 'constrained degrees of freedom are not those of the tagged nodes')
        ctx.close([v for _, v in sorted(seen.items())], [inc[i, c] for i, c in sorted(seen)], 'bc_increment', rtol=0, atol=1e-13)
        got = np.asarray(fe_row(fem, p, r.reshape(P.shape), du))
        want = f.copy()
        want[tags > 0] = (du - inc)[tags > 0]
        ctx.close(got, want, 'bc_rows', rtol=1e-9)
        # tangent
        import scipy.sparse
        p.newton_update([jnp.asarray(du)])
        T = scipy.sparse.coo_matrix((np.asarray(p.V), (np.asarray(p.I), np.asarray(p.J))), shape=(P.size,) * 2).tocsr()
        v = rng.normal(size=P.shape)
        e = 1e-6 * h.min()
        fd = (R.force(u + du + e * v, rho) - R.force(u + du - e * v, rho)) / (2 * e)
        ctx.close(T @ v.reshape(-1), fd.reshape(-1), 'step_tangent', rtol=1e-6)
        # a carried gradient that is not the gradient of any displacement on this mesh (restart / remesh data)
        Fq = I3 + .2 * rng.uniform(-1, 1, (nc, nq, 3, 3))
        p.set_params({**par, 'F_prev': jnp.asarray(Fq)})
        ctx.close(zoo.flat_residual(p, [du]), free_force(R, m, P + u, du, Fq, rho).reshape(-1), 'free_F_prev', rtol=1e-9)
        p.set_params({k: par[k] for k in ('points', 'lam', 'lam_prev', 'F_prev')})
        ctx.close(zoo.flat_residual(p, [du]), R.force(u + du, np.ones(nc)).reshape(-1), 'default_density', rtol=1e-9)
        p.set_params(par)
        ctx.close(zoo.flat_residual(p, [du]), r, 'repeat_set', rtol=0, atol=1e-13 * sc)


def free_force(R, m, x, du, Fp, rho):
    from .. import refasm
    _, g, jxw, _ = refasm.cell_geom(m.t, x, m.cells, R.X, R.W)
    Fi = np.einsum('cnv,cqnd->cqvd', du[m.cells], g) + I3
    F = Fi @ Fp
    cauchy = kirchhoff(F) * rho[:, None, None, None] ** 3 / np.linalg.det(F)[..., None, None]
    T = cauchy @ np.swapaxes(np.linalg.inv(Fi), -1, -2) * np.linalg.det(Fi)[..., None, None]
    f = np.zeros((len(m.points), 3))
    np.add.at(f, m.cells, np.einsum('cqvd,cqnd,cq->cnv', T, g, jxw))
    return f


def fe_row(fem, p, r, u):
    """Residual with Dirichlet rows, through the library's own routine."""
    from jax_fem.solver import apply_bc_vec
    return apply_bc_vec(fem.np.asarray(r).reshape(-1), fem.np.asarray(u).reshape(-1), p).reshape(r.shape)


class Diverged(Exception):
    pass


def wrapped(fem, M, p, log):
    import scipy.sparse.linalg
    calls = [0]

    def direct(A, b, x0, options):
        calls[0] += 1
        if calls[0] > 60:               # Newton has no iteration cap
            raise Diverged()
        return fem.np.asarray(scipy.sparse.linalg.spsolve(fem.csr(A), np.asarray(b)))
    f = fem.ad_wrapper(p, solver_options={'custom_solver': direct, 'tol': 1e-11, 'rel_tol': 1e-13}, adjoint_solver_options={'spsolve_solver': {}})

    def fwd(params):
        calls[0] = 0
        s = f(params)
        log.append((params, s))
        return s
    return fwd


def run_path(fem, M, p, rho, steps, log, aut=True):
    old = M.N_STEPS, M.LOAD_SCHEDULE_STEPS
    M.N_STEPS = M.LOAD_SCHEDULE_STEPS = steps
    try:
        return M.end_to_end_ul(rho, p, p.fes[0], wrapped(fem, M, p, log), aut=aut)
    finally:
        M.N_STEPS, M.LOAD_SCHEDULE_STEPS = old


def path_case(ctx, case, rng, fem, M):
    from .. import zoo
    import meshio, os
    jnp = fem.np
    m = beam(case['t'], case['n'], rng, .2)
    p, tags = build(ctx, fem, M, m)
    R = Ref(m, p.fes[0])
    P, nc = m.points.copy(), len(m.cells)
    rho = rng.uniform(.3, 1.1, nc)
    rr = np.clip(rho, .02, 1.)
    finals = []
    for steps in case['steps']:
        log = []
        J, aux = run_path(fem, M, p, jnp.asarray(rho), steps, log)
        ctx.check(len(log) == steps, 'aux', f'{len(log)} forward calls for {steps} steps')
        u = np.zeros_like(P)
        for k, (par, s) in enumerate(log):
            du = np.asarray(s[0])
            ctx.close(par['points'], P + u, 'step_points', rtol=0, atol=1e-12)
            ctx.close(par['F_prev'], R.F(u), 'step_F', rtol=1e-9)
            ctx.close([float(par['lam']), float(par['lam_prev'])], [(k + 1) / steps, k / steps], 'step_dirichlet', rtol=0, atol=1e-14)
            u = u + du
            ctx.close(u[tags > 0], want_target(P, (k + 1) / steps, tags)[tags > 0], 'step_dirichlet', rtol=0, atol=1e-9)
            if not np.all(np.isfinite(u)) or np.linalg.det(R.F(u)).min() < .01:
                ctx.event('inverted')           # the load is beyond what this mesh can carry: nothing is promised there
                return
            f = R.force(u, rr)
            ctx.close(f[tags == 0], 0 * f[tags == 0], 'step_equilibrium', rtol=0, atol=1e-7 * np.max(np.abs(f)))
            ctx.close(aux['delta_us'][k], du, 'aux', rtol=0)
        ctx.close(float(J), np.sum(u ** 2), 'objective', rtol=1e-10)
        ctx.close(float(run_path(fem, M, p, jnp.asarray(rho), steps, [], aut=False)), float(J), 'objective', rtol=1e-9)
        finals.append(u)
    if case['t'] == 'HEX8':                 # same elastic end state, unless the column buckled (then equilibrium above is the verdict)
        gap = np.max(np.abs(finals[0] - finals[1]))
        ctx.event('split_independent')
        if gap > 1e-6:
            if not two_states(R, finals, rr, tags):
                ctx.fail('split_independent', f'final displacements of {case["steps"]} increments differ by {gap}')
            ctx.event('two_branches')
    # files
    old = M.N_STEPS, M.LOAD_SCHEDULE_STEPS
    M.N_STEPS = M.LOAD_SCHEDULE_STEPS = case['steps'][-1]
    ds = np.asarray(aux['delta_us'])
    M.write_step_vtus(p.fes[0], ds, P)
    M.N_STEPS, M.LOAD_SCHEDULE_STEPS = old
    u = np.zeros_like(P)
    for k in range(case['steps'][-1]):
        d = meshio.read(os.path.join(ctx.scratch, f'delta_u_{k:04d}.vtu'))
        ctx.close(d.points, P + u, 'files', rtol=1e-6)
        ctx.close(d.point_data['sol'], ds[k], 'files', rtol=1e-6)
        u = u + ds[k]


def two_states(R, finals, rho, tags):
    """Both are equilibria (already checked): distinct only if the tangent between them is not positive definite somewhere; accept then."""
    for s in np.linspace(0, 1, 9):
        u = (1 - s) * finals[0] + s * finals[1]
        v = finals[1] - finals[0]
        v = v / np.linalg.norm(v)
        e = 1e-6
        q = np.sum(v * (R.force(u + e * v, rho) - R.force(u - e * v, rho))) / (2 * e)
        if q <= 0:
            return True
    return False


def grad_case(ctx, case, rng, fem, M):
    jax, jnp = fem.jax, fem.np
    m = beam(case['t'], case['n'], rng, .2)
    p, tags = build(ctx, fem, M, m)
    nc = len(m.cells)
    rho = rng.uniform(.3, .95, nc)
    rho[0] = 1.2            # outside the admissible interval: the design is clipped there
    f = lambda r, aut=False: run_path(fem, M, p, r, case['steps'], [], aut=aut)
    (J, aux), g = jax.value_and_grad(lambda r: f(r, True), has_aux=True)(jnp.asarray(rho))
    g = np.asarray(g)
    ctx.close(float(f(jnp.asarray(rho))), float(J), 'objective', rtol=1e-9)
    ctx.close(g[0], 0., 'clipped', rtol=0, atol=1e-12 + 1e-9 * np.max(np.abs(g)))
    v = rng.normal(size=nc)
    v[0] = 0.
    v /= np.linalg.norm(v)
    fds = []
    for e in (2e-4, 1e-4):
        fds.append((float(f(jnp.asarray(rho + e * v))) - float(f(jnp.asarray(rho - e * v)))) / (2 * e))
    fd = (4 * fds[1] - fds[0]) / 3
    if abs(fds[1] - fds[0]) > 1e-2 * max(abs(fds[0]), np.linalg.norm(g)):
        ctx.event('fd_jump')                # the perturbed columns ended on different branches: no derivative to compare with
    else:
        ctx.close(g @ v, fd, 'gradient', rtol=0, atol=1e-5 * max(abs(fd), np.linalg.norm(g)) + 2 * abs(fds[1] - fds[0]))
    # other order: gradient, then another forward, then gradient again
    g2 = np.asarray(jax.grad(lambda r: f(r))(jnp.asarray(rho)))
    ctx.close(g2, g, 'gradient', rtol=1e-7)
