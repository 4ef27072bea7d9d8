import numpy as np

PROPERTY = 'C33'
RULE = ('each case runs one buckling or scalability script from a scratch copy, on its own geometry with fewer cells or steps, while monitors on its solver calls, step callbacks and saved files evaluate an own quadrature of the documented energy at every state it '
        'reports; the gradient case compares the gradient the inverse script uses with differences of fresh solves. Non-trivial: the loads and deflections at the checked states are nonzero.')
REQUIRED = ['arc_setup', 'arc_displacement', 'arc_force', 'arc_bc', 'arc_files', 'arc_counter_load', 'relax_equilibrium', 'relax_bc', 'relax_residual', 'relax_files', 'relax_guess', 'relax3d', 'cellular_setup', 'cellular_residual', 'cellular_equilibrium',
            'forward_equilibrium', 'forward_bc', 'inverse_value', 'inverse_gradient', 'inverse_density', 'deflected']


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'arcdisp', 'n': 0, 'steps': 21}, {'kind': 'arcforce', 'n': 0, 'steps': 21}, {'kind': 'arcdisp', 'n': 12, 'steps': 21}, {'kind': 'arcforce', 'n': 12, 'steps': 21}, {'kind': 'relax2d', 'n': [10, 2]}, {'kind': 'relax3d', 'n': [6, 1, 1]}, {'kind': 'cellular', 'n': [3, 3]},
           {'kind': 'forward', 'n': [2, 3, 2]}, {'kind': 'inverse', 'n': [2, 1, 2]}]
    if not q:
        out += [{'kind': 'arcdisp', 'n': 20, 'steps': 120}, {'kind': 'arcforce', 'n': 20, 'steps': 120}, {'kind': 'relax2d', 'n': [20, 2]}, {'kind': 'relax3d', 'n': [10, 2, 2]}, {'kind': 'cellular', 'n': [5, 4]}]
        out += [{'kind': k, 'n': [int(a) for a in rng.integers(1, 5, 3)]} for k in ('forward', 'inverse') * 4]
    return out


def run_case(ctx, case):
    from .. import fem, meshes
    rng = np.random.default_rng(case['seed'])
    try:
        globals()['do_' + case['kind']](ctx, case, rng, fem, meshes)
    except AssertionError as e:
        # the Krylov backend gave up and said so: nothing was reported to judge
        if case['kind'] not in ('forward', 'inverse') or 'failed to converge' not in str(e):
            raise
        ctx.event('backend_gave_up')


def pk(gu, E, nu, dim, planestrain=False):
    """First Piola stress of mu/2 (J^(-2/k) I1 - k) + kappa/2 (J-1)^2 by hand."""
    F = gu + np.eye(dim)
    if planestrain:
        G = np.zeros(F.shape[:-2] + (3, 3))
        G[..., :2, :2], G[..., 2, 2] = F, 1.
        return pk(G - np.eye(3), E, nu, 3)[..., :2, :2]
    E = np.asarray(E)[..., None, None] if np.ndim(E) else E
    mu, kappa, k = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu)), dim
    J = np.linalg.det(F)[..., None, None]
    Ft = np.swapaxes(np.linalg.inv(F), -1, -2)
    I1 = np.sum(F ** 2, axis=(-1, -2))[..., None, None]
    return mu * J ** (-2. / k) * (F - I1 / k * Ft) + kappa * (J - 1) * J * Ft


class Form:
    """Own residual of a problem on the mesh of a library FiniteElement, plus surface loads on node-selected faces."""

    def __init__(self, fe, meshes):
        from .. import refasm
        self.fe = fe
        self.m = meshes.M(fe.ele_type, np.asarray(fe.points), np.asarray(fe.cells))
        X, W = refasm.quad_points(fe)
        self.N, self.g, self.w, self.x = refasm.cell_geom(fe.ele_type, self.m.points, self.m.cells, X, W)

    def grad(self, u):
        return np.einsum('cqnd,cnv->cqvd', self.g, np.asarray(u)[self.m.cells])

    def internal(self, P):
        r = np.zeros((len(self.m.points), P.shape[2]))
        np.add.at(r, self.m.cells, np.einsum('cqvd,cqnd,cq->cnv', P, self.g, self.w))
        return r

    def load(self, pred, t):
        """Integral of the constant vector t against the shape functions on the faces whose nodes satisfy pred(point)."""
        from .. import refasm
        m, fe = self.m, self.fe
        faces = refasm.select_faces(fe, m, lambda i: pred(m.points[i]))
        geo = refasm.face_geom(m.t, m.points, m.cells, faces, lambda f: refasm.face_points(fe, f)[0], lambda f: refasm.face_points(fe, f)[1], refasm.lib_face_corners(fe))
        r = np.zeros((len(m.points), len(t)))
        for (c, f), (N, _, dA, _, _) in zip(faces, geo):
            np.add.at(r, m.cells[c], np.outer(dA @ N, t))
        return r


near = lambda a, v, tol=1e-6: np.abs(a - v) < tol


def mid(p):
    return near(p[1], 0) and 23 < p[0] < 27


def bend(x, a):
    """A smooth deflected field vanishing at both ends."""
    s = np.sin(np.pi * x[:, 0] / 50) ** 2
    return a * np.stack([.3 * s * x[:, 1], s + .02 * x[:, 1]], 1)


class Stop(BaseException):
    pass


def do_arcdisp(ctx, case, rng, fem, meshes):
    arc(ctx, case, rng, fem, meshes, 'displacement')


def do_arcforce(ctx, case, rng, fem, meshes):
    arc(ctx, case, rng, fem, meshes, 'force')


def arc(ctx, case, rng, fem, meshes, which):
    from .c32 import load
    from .. import zoo
    g = load(ctx, f'applications/arc_length/beam2d_{which}.py')
    mk = g['make_mesh']
    if case['n']:
        g['make_mesh'] = lambda *a, **k: mk(Nx=case['n'], Ny=2)
    orig, save = g['solver'], g['save_sol']
    saved, st = {}, {}
    g['save_sol'] = lambda fe, sol, path, **k: (saved.__setitem__(path, np.asarray(sol)), save(fe, sol, path, **k))[1]

    def solver(p, solver_options):
        import copy
        o = {k: dict(v) if isinstance(v, dict) else v for k, v in solver_options.items()}
        a = o['arc_length']
        ctx.check(a['control'] == which, 'arc_setup', 'control')
        f = Form(p.fes[0], meshes)
        st.update(p=p, f=f, opts=a, n=0)
        a['max_continuation_steps'] = case['steps']
        if which == 'displacement':
            a['Delta_l'] = .4
        a['linear'] = {'spsolve_solver': {}}
        cb = a['step_callback']
        P = f.m.points
        left, right = near(P[:, 0], 0), near(P[:, 0], 50.)
        imp = f.load(mid, [0., 1e-5])
        end = f.load(lambda q: near(q[0], 50.), [5., 0.])
        fixed = left | right if which == 'displacement' else left
        # the scripts' weak form on a random bent state
        for amp in (0., 1., 3.):
            u = bend(P, amp) + (rng.normal(size=P.shape) * .01 if amp else 0)
            want = f.internal(pk(f.grad(u), 1e3, .3, 2)) + imp + (end if which == 'force' else 0)
            ctx.close(zoo.flat_residual(p, [u]), want.ravel(), 'arc_setup', rtol=1e-8)
        bcs = {(int(n), int(v)): float(val) for N_, V_, W_ in zip(p.fes[0].node_inds_list, p.fes[0].vec_inds_list, p.fes[0].vals_list) for n, v, val in zip(N_, V_, W_)}
        wantbc = {(int(i), v): 0. for i in np.nonzero(left)[0] for v in (0, 1)}
        if which == 'displacement':
            wantbc.update({(int(i), v): [-2.5, 0.][v] for i in np.nonzero(right)[0] for v in (0, 1)})
        ctx.check(bcs == wantbc, 'arc_setup', 'prescribed values')
        if which == 'force':
            ctx.close(a['q_vec_aux'], -end.ravel(), 'arc_counter_load', rtol=1e-9)

        if not case['n']:
            raise Stop()                                     # the shipped mesh: its setup only

        def spy(step, u_vec, lam):
            u = np.asarray(u_vec).reshape(-1, 2)
            lam = float(lam)
            r = f.internal(pk(f.grad(u), 1e3, .3, 2)) + imp + (lam * end if which == 'force' else 0)
            sc = np.max(np.abs(f.internal(pk(f.grad(u), 1e3, .3, 2)))) + 1e-3
            ctx.check(np.max(np.abs(r[~fixed])) < 1e-5 * sc + 1e-6, 'arc_' + which, lambda: f'step {step}: out of balance {np.max(np.abs(r[~fixed])):.2e} of {sc:.2e}')
            want = np.zeros_like(u)
            if which == 'displacement':
                want[right, 0] = -2.5 * lam
            ctx.close(u[fixed], want[fixed], 'arc_bc', rtol=0, atol=1e-8)
            before = set(saved)
            out = cb(step, u_vec, lam)
            new = sorted(set(saved) - before)
            if step % 10 == 0:
                ctx.check(len(new) == 1 and np.allclose(saved[new[0]][:, :2], u) and np.all(saved[new[0]][:, 2] == 0), 'arc_files', f'step {step}: {new}')
            st['n'] += 1
            ctx.event('deflected', int(np.max(np.abs(u)) > 1e-2))
            return out
        a['step_callback'] = spy
        return orig(p, solver_options=o)
    g['solver'] = solver
    try:
        g['main']()
    except Stop:
        return
    ctx.check(st.get('n', 0) >= 5, 'arc_' + which, f"{st.get('n')} steps seen")


def do_relax2d(ctx, case, rng, fem, meshes):
    from .c32 import load
    from .. import zoo
    g = load(ctx, 'applications/dynamic_relaxation/beam2d_displacement.py')
    rm, orig, save = g['rectangle_mesh'], g['solver'], g['save_sol']
    g['rectangle_mesh'] = lambda Nx, Ny, domain_x, domain_y: rm(Nx=case['n'][0], Ny=case['n'][1], domain_x=domain_x, domain_y=domain_y)
    sols, saved = [], []

    def solver(p, o):
        f = Form(p.fes[0], meshes)
        P = f.m.points
        imp = f.load(mid, [0., 1e-5]) if not sols else np.zeros_like(P)
        for amp in (0., 2.):
            u = bend(P, amp) + rng.normal(size=P.shape) * .01
            ctx.close(zoo.flat_residual(p, [u]), (f.internal(pk(f.grad(u), 1e3, .3, 2)) + imp).ravel(), 'relax_residual', rtol=1e-8)
        if sols:
            ctx.check('initial_guess' in o['dynamic_relax'] and np.array_equal(o['dynamic_relax']['initial_guess'][0], sols[0]), 'relax_guess')
        s = orig(p, o)
        u = np.asarray(s[0])
        left, right = near(P[:, 0], 0), near(P[:, 0], 50.)
        want = np.zeros_like(u)
        want[right, 0] = -2.5
        ctx.close(u[left | right], want[left | right], 'relax_bc', rtol=0, atol=1e-7)
        r = f.internal(pk(f.grad(u), 1e3, .3, 2)) + imp
        ctx.check(np.linalg.norm(r[~(left | right)]) < 1e-6, 'relax_equilibrium', lambda: f'{np.linalg.norm(r[~(left | right)])}')
        ctx.event('deflected', int(np.max(np.abs(u[:, 1])) > .1))
        sols.append(u)
        return s
    g['solver'] = solver
    g['save_sol'] = lambda fe, sol, path, **k: (saved.append(np.asarray(sol)), save(fe, sol, path, **k))[1]
    g['example']()
    ctx.check(len(sols) == 2 and len(saved) == 2 and all(np.array_equal(a[:, :2], b) for a, b in zip(saved, sols)), 'relax_files')
    ctx.close(sols[1], sols[0], 'relax_guess', rtol=0, atol=.05 * np.max(np.abs(sols[0])))


def do_relax3d(ctx, case, rng, fem, meshes):
    from .c30 import execute
    from .. import zoo
    import jax_fem.solver as S
    import os
    orig, seen = S.solver, []
    n = case['n']

    def solver(p, o):
        f = Form(p.fes[0], meshes)
        P = f.m.points
        u = rng.normal(size=P.shape) * .02
        ctx.close(zoo.flat_residual(p, [u]), f.internal(pk(f.grad(u), 10., .3, 3)).ravel(), 'relax3d', rtol=1e-8)
        s = orig(p, {'dynamic_relax': dict(o['dynamic_relax'], tol=1e-6)})
        u = np.asarray(s[0])
        left, right = near(P[:, 0], 0), near(P[:, 0], 20.)
        ctx.close(u[left], np.zeros((left.sum(), 3)), 'relax_bc', rtol=0, atol=1e-7)
        ctx.close(u[right], np.tile([-4., .005, 0.], (right.sum(), 1)), 'relax_bc', rtol=0, atol=1e-7)
        r = f.internal(pk(f.grad(u), 10., .3, 3))
        ctx.check(np.linalg.norm(r[~(left | right)]) < 1e-4, 'relax_equilibrium', lambda: f'{np.linalg.norm(r[~(left | right)])}')
        seen.append(u)
        return s
    g = execute('applications/dynamic_relaxation/beam3d_displacement.py', os.path.join(ctx.scratch, 'r3'), solver, gmsh=lambda o: (lambda Nx, Ny, Nz, *a, **k: o(n[0], n[1], n[2], *a, **k)))
    ctx.check(len(seen) == 1, 'relax3d', 'solve not reached')
    import meshio
    M = meshio.read(os.path.join(ctx.scratch, 'r3', 'output', 'beam3d', 'u.vtu'))
    ctx.close(M.point_data['sol'], seen[0], 'relax_files', rtol=1e-5)


def do_cellular(ctx, case, rng, fem, meshes):
    from .c32 import load, Shim
    from .. import zoo
    import os
    g = load(ctx, 'applications/dynamic_relaxation/cellular_displacement.py')
    orig, mio = g['solver'], g['meshio']
    seen, saved = [], []

    def audit(p, run, o):
        f = Form(p.fes[0], meshes)
        P = f.m.points
        Ly = P[:, 1].max()
        ctx.check(np.allclose(P.min(0), 0, atol=1e-9), 'cellular_setup', 'origin')
        top, bot = near(P[:, 1], Ly, 1e-5), near(P[:, 1], 0, 1e-5)
        bcs = {(int(n), int(v)): float(val) for N_, V_, W_ in zip(p.fes[0].node_inds_list, p.fes[0].vec_inds_list, p.fes[0].vals_list) for n, v, val in zip(N_, V_, W_)}
        want = {(int(i), v): 0. for i in np.nonzero(bot)[0] for v in (0, 1)}
        want.update({(int(i), v): [0., -.15 * Ly][v] for i in np.nonzero(top)[0] for v in (0, 1)})
        ctx.check(set(bcs) == set(want) and all(abs(bcs[k] - want[k]) < 1e-9 * Ly for k in want), 'cellular_setup', 'prescribed values')
        h = np.min(np.linalg.norm(P[f.m.cells[:, 0]] - P[f.m.cells[:, 1]], axis=1))
        u = rng.normal(size=P.shape) * .01 * h + .02 * P[:, ::-1]
        ctx.close(zoo.flat_residual(p, [u]), f.internal(pk(f.grad(u), 7e4, .3, 2, True)).ravel(), 'cellular_residual', rtol=1e-7)
        if not run:
            raise Stop()
        s = orig(p, o)
        u = np.asarray(s[0])
        r = f.internal(pk(f.grad(u), 7e4, .3, 2, True))
        ctx.check(np.linalg.norm(r[~(top | bot)]) < 1e-4, 'cellular_equilibrium', lambda: f'{np.linalg.norm(r[~(top | bot)])}')
        ctx.close(u[top | bot], np.where(top[:, None], [0., -.15 * Ly], [0., 0.])[top | bot], 'relax_bc', rtol=0, atol=1e-6 * Ly)
        ctx.event('deflected')
        seen.append(u)
        return s
    g['solver'] = lambda p, o: audit(p, False, o)
    try:
        g['simulation']()
    except Stop:
        pass
    # the same script on a small mesh, to the end
    m = meshes.make('TRI6', rng, n=case['n'], size=[2., 3.], distort=0., permute=True)
    off = rng.normal(size=2)

    def read(path, *a, **k):
        return mio.Mesh(m.points + off, [('triangle6', m.cells)])
    g['meshio'] = Shim(mio, read=read)
    g['solver'] = lambda p, o: audit(p, True, o)
    g['save_sol'] = lambda fe, sol, path, **k: saved.append(np.asarray(sol))
    g['simulation']()
    ctx.check(len(seen) == len(saved) == 1 and np.array_equal(saved[0][:, :2], seen[0]), 'relax_files', f'{len(seen)} {len(saved)}')


def do_forward(ctx, case, rng, fem, meshes):
    from .c32 import load
    g = load(ctx, 'applications/scalability/example_forward.py')
    g['Nx'], g['Ny'], g['Nz'] = case['n']
    saved, save = [], g['save_sol']
    g['save_sol'] = lambda fe, sol, path, **k: saved.append((fe, np.asarray(sol)))
    g['main']()
    fe, u = saved[0]
    audit_cube(ctx, fe, u, np.ones((len(fe.cells), len(fe.quad_weights))), meshes)


def audit_cube(ctx, fe, u, rho, meshes, name='forward'):
    f = Form(fe, meshes)
    P = f.m.points
    left, right = near(P[:, 0], 0), near(P[:, 0], 1)
    ctx.close(u[left], np.zeros((left.sum(), 3)), 'forward_bc', rtol=0, atol=1e-9)
    ctx.close(u[right], np.tile([.02, 0., 0.], (right.sum(), 1)), 'forward_bc', rtol=0, atol=1e-9)
    r = f.internal(pk(f.grad(u), 10. * rho, .3, 3)) + f.load(lambda q: near(q[1], 1), [0., 1e-3, 0.])
    fr = ~(left | right)
    ctx.check(np.max(np.abs(r[fr]), initial=0.) < 1e-6, name + '_equilibrium', lambda: f'{np.max(np.abs(r[fr]))}')


def do_inverse(ctx, case, rng, fem, meshes):
    import jax
    from .c32 import load, Shim
    from .. import zoo
    jnp = fem.np
    g = load(ctx, 'applications/scalability/example_inverse_timing.py')
    g['Nx'], g['Ny'], g['Nz'] = case['n']
    g['TIMING_WARMUP'], g['TIMING_REPEATS'] = 0, 1
    got, probs, mk = {}, [], g['build_hyperelastic3d_problem_inverse']

    def build(*a):
        probs.append(mk(*a))
        return probs[-1]
    g['build_hyperelastic3d_problem_inverse'] = build

    def vg(fn, *a, **k):
        got['fn'] = fn
        inner = jax.value_and_grad(fn, *a, **k)

        def run(x):
            got['x'], got['out'] = x, inner(x)
            return got['out']
        return run
    g['jax'] = Shim(jax, value_and_grad=vg)
    g['main']()
    p, mesh = probs[0]
    f = Form(p.fes[0], meshes)
    P = f.m.points
    x = np.asarray(got['x'])
    ctx.check(x.shape == f.w.shape and np.all(x == .5), 'inverse_density', f'{x.shape}')
    J, gr = float(got['out'][0]), np.asarray(got['out'][1])

    def solve(rho):
        q, _ = mk(*case['n'])
        q.set_params(jnp.asarray(rho))
        return np.asarray(fem.solver(q, {'petsc_solver': {}, 'tol': 1e-11, 'rel_tol': 1e-12})[0])
    u = solve(x)
    audit_cube(ctx, p.fes[0], u, x, meshes)
    ctx.close(J, np.sum(u ** 2), 'inverse_value', rtol=1e-6)
    rho = rng.uniform(.4, 2., x.shape)
    u = rng.normal(size=P.shape) * .02
    p.set_params(jnp.asarray(rho))
    ctx.close(zoo.flat_residual(p, [u]), (f.internal(pk(f.grad(u), 10. * rho, .3, 3)) + f.load(lambda q: near(q[1], 1), [0., 1e-3, 0.])).ravel(), 'inverse_density', rtol=1e-8)
    # gradient at a nonuniform density (at the uniform one the scale is nearly irrelevant)
    _, gr2 = jax.value_and_grad(got['fn'])(jnp.asarray(rho))
    for gg, r0 in ((gr, x), (np.asarray(gr2), rho)):
        d = rng.normal(size=x.shape)
        h = 1e-3
        fd = (np.sum(solve(r0 + h * d) ** 2) - np.sum(solve(r0 - h * d) ** 2)) / (2 * h)
        ctx.close(np.sum(gg * d), fd, 'inverse_gradient', rtol=1e-3, scale=abs(fd) + .1 * np.linalg.norm(gg) * np.linalg.norm(d) + 1e-9)
