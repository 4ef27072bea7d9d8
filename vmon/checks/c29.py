import numpy as np

PROPERTY = 'C29'
RULE = ('each case builds one application model on a random (distorted, renumbered) mesh, feeds random current and previous-step fields and parameters, and compares its residual with an own quadrature of the documented weak form; '
        'time-step cases solve a step whose exact solution lies in the space; helper cases feed random triangles, meshes and deformations to the helper functions the models use. Non-trivial: all fields and increments nonzero.')
REQUIRED = ['wave_residual', 'wave_step', 'thermomech_residual', 'thermomech_step', 'thermomech_constants', 'dendrite_implicit', 'dendrite_flat', 'dendrite_mass', 'dendrite_force', 'dendrite_lumped', 'dendrite_step', 'stokes_residual',
            'stokes_flow', 'robin_residual', 'elastic_one', 'elastic_two', 'elastic_same_solution', 'waveguide', 'stress_is_energy_gradient', 'rest_state', 'objective', 'hyper_residual', 'density_scaling', 'traction',
            'contact_stress', 'contact_rotation', 'contact_average', 'contact_bc', 'orientation', 'orientation_keeps_nodes', 'nodal_gradient', 'set_again']


def cases(tier, rng):
    q = tier == 'quick'
    kinds = ['wave', 'thermomech', 'dendrite', 'explicit', 'stokes', 'robin', 'elastic', 'hyper', 'contact', 'helpers']
    two = ['TRI3', 'QUAD4', 'TRI6', 'QUAD8']
    three = ['HEX8', 'TET4', 'HEX20', 'TET10', 'HEX27']
    return [{'kind': k, 'two': two[(r + i) % 4], 'three': three[(r + i) % 5]} for r in range(2 if q else 24) for i, k in enumerate(kinds)]


def load(rel, scratch, name):
    """An application module from a scratch copy: importing it may create directories beside it and change global settings."""
    import importlib.util, shutil, os, jax
    from ..core import REPO
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(REPO, rel), os.path.join(d, 'example.py'))
    spec = importlib.util.spec_from_file_location('app_' + name, os.path.join(d, 'example.py'))
    M = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(M)
    finally:
        jax.config.update('jax_enable_x64', True)
    return M


def run_case(ctx, case):
    from .. import fem, meshes
    rng = np.random.default_rng(case['seed'])
    globals()['do_' + case['kind']](ctx, case, rng, fem, meshes)


def m2(case, rng, meshes, **kw):
    return meshes.make(case['two'], rng, n=[int(a) for a in rng.integers(2, 4, 2)], size=[1., 1.], **{'distort': .2, 'curved': .05, **kw})


def m3(case, rng, meshes, **kw):
    n = [int(a) for a in rng.integers(1, 3, 3)]
    return meshes.make(case['three'], rng, n=n, size=[1., 1., 1.], **{'distort': .15, 'curved': .04, **kw})


def at_quads(m, fe, u, grad=False):
    from .. import refasm
    X, W = refasm.quad_points(fe)
    N, g, jxw, _ = refasm.cell_geom(m.t, m.points, m.cells, X, W)
    return np.einsum('cqnd,cnv->cqvd', g, u[m.cells]) if grad else np.einsum('qn,cnv->cqv', N, u[m.cells])


def same(ctx, p, sols, want, name, rtol=1e-9):
    got = p.compute_residual([__import__('jax').numpy.asarray(s) for s in sols])
    for g, w in zip(got, want):
        ctx.close(g, w, name, rtol=rtol, scale=max(np.max(np.abs(w)), 1e-300))


def smooth(rng, m, k=1, lin=False):
    A, b, c = rng.normal(size=(m.dim, k)), rng.normal(size=k), rng.normal(size=k)
    u = m.points @ A + b
    return u if lin else u + c * np.sin(m.points @ A * .7)


# ---------------------------------------------------------------- wave

def do_wave(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    jnp = fem.np
    M = load('applications/wave/example.py', ctx.scratch, 'wave')
    m = m2(case, rng, meshes)
    bnd = m.boundary_nodes()
    for order in (None, 2):
        p = M.wave(fem.mk(m), vec=1, dim=2, ele_type=m.t, quadrature_order=order)
        fe = p.fes[0]
        for k in range(2):
            M.c, M.dt = (5000, 1 / 250000) if k == 0 else (float(rng.uniform(.5, 3)), float(rng.uniform(.01, .5)))
            p = M.wave(fem.mk(m), vec=1, dim=2, ele_type=m.t, quadrature_order=order)
            fe = p.fes[0]
            cd = (M.c * M.dt) ** 2
            u0, u1, u = rng.normal(size=(3, len(m.points), 1))
            p.set_params([jnp.asarray(u0), jnp.asarray(u1)])
            form = lambda us, gs, x, a, b: ([us[0] - 2 * b + a], [cd * gs[0]])
            want = refasm.residual(p, [m], [u], form, ivs=[at_quads(m, fe, u0), at_quads(m, fe, u1)])
            same(ctx, p, [u], want, 'wave_residual')
            p.set_params([jnp.asarray(u1), jnp.asarray(u0)])
            same(ctx, p, [u], refasm.residual(p, [m], [u], form, ivs=[at_quads(m, fe, u1), at_quads(m, fe, u0)]), 'set_again')
    # u = (a + b.x)(1 + s t) solves the wave equation and lies in every space
    lin, s = smooth(rng, m, 1, lin=True)[:, 0], float(rng.uniform(-2, 2))
    t0 = float(rng.uniform(0, 1))
    at = lambda j: lin * (1 + s * (t0 + j * M.dt))
    bcs = [([int(i)], 0, float(at(2)[i])) for i in bnd]
    p = M.wave(fem.mk(m), vec=1, dim=2, ele_type=m.t, dirichlet_bc_info=zoo.bc_info(bcs))
    p.set_params([jnp.asarray(at(0)[:, None]), jnp.asarray(at(1)[:, None])])
    sol = np.asarray(fem.solver(p, {'spsolve_solver': {}, 'tol': 1e-12})[0])[:, 0]
    ctx.close(sol, at(2), 'wave_step', rtol=1e-8)


# ---------------------------------------------------------------- thermo-mechanics

def do_thermomech(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    jnp = fem.np
    M = load('applications/thermal_mechanical_full/example.py', ctx.scratch, 'tm')
    ctx.close([M.mu, M.lmbda], [M.E / (2 * (1 + M.nu)), M.E * M.nu / ((1 + M.nu) * (1 - 2 * M.nu))], 'thermomech_constants', rtol=1e-12)
    ctx.close(M.kappa, M.alpha * (2 * M.mu + 3 * M.lmbda), 'thermomech_constants', rtol=1e-12)
    m = m2(case, rng, meshes)
    I = jnp.eye(2)
    mk = lambda bcs=None: M.thermal_mechanical_full([fem.mk(m)] * 2, vec=[2, 1], dim=2, ele_type=[m.t] * 2, quadrature_order=[2, 2] if m.t == 'TRI3' else [None] * 2, dirichlet_bc_info=bcs or [None, None])
    p = mk()
    fu, fT = p.fes

    def form(us, gs, x, g_old, T_old, dt):
        e, e0 = .5 * (gs[0] + gs[0].T), .5 * (g_old + g_old.T)
        T = us[1][0]
        sig = M.lmbda * jnp.trace(e) * I + 2 * M.mu * e - M.kappa * T * I
        return [jnp.zeros_like(us[0]), jnp.array([M.C / dt * (T - T_old[0]) + M.kappa * M.T0 * jnp.trace(e - e0) / dt])], [sig, M.k * gs[1]]
    for k in range(3):
        u0, u = rng.normal(size=(2, len(m.points), 2)) * 1e-3
        T0, T = rng.normal(size=(2, len(m.points), 1)) * 10
        dt = float(10 ** rng.uniform(-2, 3))
        p.set_params([jnp.asarray(u0), jnp.asarray(T0), dt])
        g0, Tq = at_quads(m, fu, u0, True), at_quads(m, fT, T0)
        want = refasm.residual(p, [m, m], [u, T], form, ivs=[g0, Tq, np.full(g0.shape[:2], dt)])
        same(ctx, p, [u, T], want, 'thermomech_residual' if k == 0 else 'set_again')
    # uniform temperature rise of a free body: zero stress, strain kappa dT/(2 mu + 2 lmbda) (plane strain), exact in one step
    bnd = m.boundary_nodes()
    dT = float(rng.uniform(1, 50))
    a = M.kappa * dT / (2 * M.mu + 2 * M.lmbda)
    U = m.points * a
    far = int(np.argmax(np.linalg.norm(m.points - m.points[bnd[0]], axis=1)))
    ax = int(np.argmin(np.abs(m.points[far] - m.points[bnd[0]])))
    bcu = [([int(bnd[0])], 0, U[bnd[0], 0]), ([int(bnd[0])], 1, U[bnd[0], 1]), ([far], ax, U[far, ax])]
    bcT = [(sorted(range(len(m.points))), 0, dT)]
    p = mk([zoo.bc_info(bcu), zoo.bc_info(bcT)])
    p.set_params([jnp.zeros((len(m.points), 2)), jnp.zeros((len(m.points), 1)), 10.])
    s = fem.solver(p, {'spsolve_solver': {}, 'tol': 1e-9})
    ctx.close(s[0], U, 'thermomech_step', rtol=1e-7)
    ctx.close(s[1], np.full((len(m.points), 1), dT), 'thermomech_step', rtol=1e-9)


# ---------------------------------------------------------------- dendrite

PAR = {'J': 6, 'K': 1.6, 'T_eq': 1.0, 'a': .01, 'alpha': .9, 'delta': .04, 'dt': .001, 'eps_bar': .01, 'gamma': 10., 'tau': 3e-4}


def params(rng):
    P = {k: (v if k == 'J' else float(v * rng.uniform(.5, 1.5))) for k, v in PAR.items()}
    P['J'] = int(rng.integers(3, 8))
    P['a'] = float(rng.uniform(.5, 2))
    P['eps_bar'] = float(rng.uniform(.1, 2))
    P['delta'] = float(rng.uniform(.05, .5))
    P['tau'], P['dt'] = float(rng.uniform(.1, 2)), float(rng.uniform(.05, .5))
    return P


def aniso(jnp, P, g, g_dir):
    """eps eps' (-p_y, p_x) + eps^2 grad p, with the angle of g_dir (0 where that vanishes)."""
    z = (g_dir[0] == 0) & (g_dir[1] == 0)
    th = jnp.where(z, 0., jnp.arctan2(g_dir[1], jnp.where(z, 1., g_dir[0])))
    a = P['J'] * (th - jnp.pi / 2)
    e = P['eps_bar'] * (1 + P['delta'] * jnp.cos(a))
    ep = -P['eps_bar'] * P['delta'] * P['J'] * jnp.sin(a)
    return e * ep * jnp.stack([-g[1], g[0]]) + e ** 2 * g


def react(jnp, P, p, T, chi):
    m = P['alpha'] / jnp.pi * jnp.arctan(P['gamma'] * (P['T_eq'] - T))
    return -p * (1 - p) * (p - .5 + m), -P['a'] * p * (1 - p) * chi


def do_dendrite(ctx, case, rng, fem, meshes):
    from .. import refasm
    jnp = fem.np
    M = load('applications/dendrite/implicit_fem/example.py', ctx.scratch, 'di')
    m = m2({**case, 'two': ['QUAD4', 'TRI3', 'QUAD8', 'TRI6'][int(rng.integers(4))]}, rng, meshes)
    for r in range(2):
        P = params(rng)
        p = M.Solidification(mesh=[fem.mk(m)] * 2, vec=[1, 1], dim=2, ele_type=[m.t] * 2, additional_info=[P])
        fe = p.fes[0]
        n = len(m.points)
        for k in range(3):
            p0, T0, pn, Tn = rng.uniform(-.2, 1.2, (4, n, 1))
            if k == 2:
                p0 = np.full((n, 1), .4)          # flat field: the angle is undefined, the terms are not
            chi = rng.uniform(-.5, .5, len(m.cells))
            p.set_params([jnp.asarray(p0), jnp.asarray(T0), jnp.asarray(chi)])

            def form(us, gs, x, p_o, T_o, g_o, c):
                a, b = react(jnp, P, p_o[0], T_o[0], c)
                Sp = a + b + P['tau'] * (us[0][0] - p_o[0]) / P['dt']
                ST = (us[1][0] - T_o[0]) / P['dt'] - P['K'] * (us[0][0] - p_o[0]) / P['dt']
                return [jnp.array([Sp]), jnp.array([ST])], [aniso(jnp, P, gs[0][0], g_o[0])[None], gs[1]]
            g_o = at_quads(m, fe, p0, True)
            if k == 2:
                # what the library computes for a flat field is rounding noise in the gradient: any angle is possible unless it is exactly zero
                sol = p.compute_residual([jnp.asarray(pn), jnp.asarray(Tn)])
                ctx.check(all(np.all(np.isfinite(np.asarray(s))) for s in sol), 'dendrite_flat')
                p.newton_update([jnp.asarray(pn), jnp.asarray(Tn)])
                ctx.check(bool(np.all(np.isfinite(np.asarray(p.V)))), 'dendrite_flat', 'tangent not finite for a flat phase field')
                z = np.zeros((n, 1))
                p.set_params([jnp.asarray(z), jnp.asarray(T0), jnp.asarray(chi)])
                want = refasm.residual(p, [m, m], [pn, Tn], form, ivs=[at_quads(m, fe, z), at_quads(m, fe, T0), 0 * g_o, np.repeat(chi[:, None], g_o.shape[1], 1)])
                same(ctx, p, [pn, Tn], want, 'dendrite_flat')
                continue
            want = refasm.residual(p, [m, m], [pn, Tn], form, ivs=[at_quads(m, fe, p0), at_quads(m, fe, T0), g_o, np.repeat(chi[:, None], g_o.shape[1], 1)])
            same(ctx, p, [pn, Tn], want, 'dendrite_implicit')
    # liquid at rest stays at rest: p = 0 everywhere, uniform temperature
    z, Tc = np.zeros((n, 1)), np.full((n, 1), .7)
    p.set_params([jnp.asarray(z), jnp.asarray(Tc), jnp.asarray(chi)])
    s = fem.solver(p, {'spsolve_solver': {}, 'tol': 1e-12, 'initial_guess': [jnp.asarray(z), jnp.asarray(Tc)]})
    ctx.close(s[0], z, 'dendrite_step', rtol=0, atol=1e-9)
    ctx.close(s[1], Tc, 'dendrite_step', rtol=0, atol=1e-9)


def do_explicit(ctx, case, rng, fem, meshes):
    from .. import refasm
    jnp = fem.np
    M = load('applications/dendrite/explicit_fem/example.py', ctx.scratch, 'de')
    m = m2({**case, 'two': ['QUAD4', 'TRI3'][int(rng.integers(2))]}, rng, meshes)
    n = len(m.points)
    for r in range(2):
        P = params(rng)
        mk = lambda C: C(mesh=[fem.mk(m)] * 2, vec=[1, 1], dim=2, ele_type=[m.t] * 2, additional_info=[P])
        pm, pf = mk(M.SolidificationMass), mk(M.SolidificationForce)
        fe = pf.fes[0]
        u, T = rng.uniform(-.2, 1.2, (2, n, 1))
        chi = rng.uniform(-.5, .5, len(m.cells))
        want = refasm.residual(pm, [m, m], [u, T], lambda us, gs, x: ([P['tau'] / P['dt'] * us[0], us[1] / P['dt']], [0 * gs[0], 0 * gs[1]]))
        same(ctx, pm, [u, T], want, 'dendrite_mass')
        nq = len(np.asarray(fe.quad_weights))
        cq = np.repeat(chi[:, None], nq, 1)

        def form(us, gs, x, c):
            a, b = react(jnp, P, us[0][0], us[1][0], c)
            fl = aniso(jnp, P, gs[0][0], gs[0][0])
            return [jnp.array([a + b]), jnp.array([P['K'] / P['tau'] * a])], [fl[None], gs[1] + P['K'] / P['tau'] * fl[None]]
        pf.internal_vars = [jnp.asarray(cq)]
        F = refasm.residual(pf, [m, m], [u, T], form, ivs=[cq])
        same(ctx, pf, [u, T], F, 'dendrite_force')
        one = refasm.residual(pm, [m, m], [np.ones((n, 1))] * 2, lambda us, gs, x: ([P['tau'] / P['dt'] * us[0], us[1] / P['dt']], [0 * gs[0], 0 * gs[1]]))
        L = np.asarray(M.get_mass(pm)).reshape(-1)
        ctx.close(L, np.concatenate([one[0][:, 0], one[1][:, 0]]), 'dendrite_lumped', rtol=1e-10)
        step = M.get_explicit_dynamics(pm, pf)
        s = step([jnp.asarray(u), jnp.asarray(T)], jnp.asarray(chi))
        for a, b, f, o in zip(s, (u, T), F, one):
            ctx.close(a, b - f / o, 'dendrite_step', rtol=1e-8)


# ---------------------------------------------------------------- Stokes

def p1_of(m, Mesh):
    """The corner mesh of a higher-order mesh, same cells."""
    nc = {'TRI6': 3, 'QUAD8': 4, 'TRI3': 3, 'QUAD4': 4}[m.t]
    ids = np.unique(m.cells[:, :nc])
    new = np.full(len(m.points), -1)
    new[ids] = np.arange(len(ids))
    return Mesh({'TRI6': 'TRI3', 'QUAD8': 'QUAD4'}.get(m.t, m.t), m.points[ids], new[m.cells[:, :nc]])


def do_stokes(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    jnp = fem.np
    M = load('applications/stokes/example.py', ctx.scratch, 'stokes')
    t = 'TRI6' if case['two'].startswith('TRI') else 'QUAD8'
    m = meshes.make(t, rng, n=[3, 2], size=[1., 1.], distort=.15 if t == 'TRI6' else 0., curved=0.)
    mp = p1_of(m, type(m))
    mk = lambda order, bcs=None: M.StokesFlow([fem.mk(m), fem.mk(mp)], vec=[2, 1], dim=2, ele_type=[m.t, mp.t], quadrature_order=[order] * 2, dirichlet_bc_info=bcs or [None, None])
    p = mk(4)
    I = jnp.eye(2)
    u, q = rng.normal(size=(len(m.points), 2)), rng.normal(size=(len(mp.points), 1))
    form = lambda us, gs, x: ([0 * us[0], jnp.array([jnp.trace(gs[0])])], [gs[0] + us[1][0] * I, 0 * gs[1]])
    want = refasm.residual(p, [m, mp], [u, q], form)
    same(ctx, p, [u, q], want, 'stokes_residual')
    # Poiseuille flow lies in the space: u = (y(1-y), 0) rotated, grad p = laplacian u (this model: -lap u - grad(-p))
    y = m.points[:, 1]
    U = np.stack([y * (1 - y), 0 * y], 1)
    Pq = (2. * (mp.points[:, 0]))[:, None]        # sign: weak form has +p div v
    bnd = m.boundary_nodes()
    # the residual of the exact solution vanishes at interior velocity nodes and for every pressure test function
    ctx.event('stokes_flow')
    r = p.compute_residual([jnp.asarray(U), jnp.asarray(Pq)])
    r2 = p.compute_residual([jnp.asarray(U), jnp.asarray(-Pq)])
    inner = np.setdiff1d(np.arange(len(m.points)), bnd)
    sc = np.max(np.abs(np.asarray(r[0])))
    ctx.check(min(np.max(np.abs(np.asarray(a[0])[inner])) for a in (r, r2)) < 1e-9 * sc, 'stokes_flow', 'Poiseuille flow does not balance')
    ctx.close(r[1], 0 * np.asarray(r[1]), 'stokes_flow', rtol=0, atol=1e-10 * sc)
    # solved
    sgn = 1. if np.max(np.abs(np.asarray(r[0])[inner])) < 1e-9 * sc else -1.
    bcu = [([int(i)], c, float(U[i, c])) for i in bnd for c in (0, 1)]
    bcp = [([0], 0, float(sgn * Pq[0, 0]))]
    p = mk(4, [zoo.bc_info(bcu), zoo.bc_info(bcp)])
    s = fem.solver(p, {'spsolve_solver': {}, 'tol': 1e-10})
    ctx.close(s[0], U, 'stokes_flow', rtol=1e-7)
    ctx.close(s[1], sgn * Pq, 'stokes_flow', rtol=1e-6)


def do_robin(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    import importlib
    jnp = fem.np
    M = importlib.import_module('applications.robin_bc.example')
    m = m2(case, rng, meshes)
    bf = sorted(m.boundary_faces())
    sets = [set(int(i) for k in bf[::2] for i in k), set(int(i) for k in bf[1::3] for i in k)]
    for order in (None, 2, 5):
        p = M.Poisson(fem.mk(m), vec=1, dim=2, ele_type=m.t, quadrature_order=order, location_fns=[zoo.in_ids(s) for s in sets])
        faces = [refasm.select_faces(p.fes[0], m, lambda i, s=s: i in s) for s in sets]
        u = rng.normal(size=(len(m.points), 1))
        src = lambda x: x[0] * jnp.sin(5 * jnp.pi * x[1]) + jnp.exp(-((x[0] - .5) ** 2 + (x[1] - .5) ** 2) / .02)
        want = refasm.residual(p, [m], [u], lambda us, gs, x: ([jnp.array([-src(x)])], [gs[0]]), [lambda us, gs, x: [5 * us[0] ** 2]] * 2, faces=faces)
        same(ctx, p, [u], want, 'robin_residual')


# ---------------------------------------------------------------- elasticity

def lame(E, nu):
    return E / (2 * (1 + nu)), E * nu / ((1 + nu) * (1 - 2 * nu))


def do_elastic(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    import importlib
    jnp = fem.np
    A = importlib.import_module('applications.stokes.example_1var')
    B = importlib.import_module('applications.stokes.example_2vars')
    D = importlib.import_module('applications.explicit_dynamics.example')
    m = m3(case, rng, meshes)
    I = jnp.eye(3)

    def law(E, nu):
        mu, la = lame(E, nu)
        return lambda us, gs, x: (None, [la * jnp.trace(gs[0]) * I + mu * (gs[0] + gs[0].T)])
    u = rng.normal(size=(len(m.points), 3))
    p1 = A.LinearElasticity(fem.mk(m), vec=3, dim=3, ele_type=m.t)
    want = refasm.residual(p1, [m], [u], law(70e3, .3))
    same(ctx, p1, [u], want, 'elastic_one')
    p2 = B.LinearElasticity([fem.mk(m)] * 2, vec=[1, 2], dim=3, ele_type=[m.t] * 2, quadrature_order=[None, None])
    same(ctx, p2, [u[:, :1], u[:, 1:]], [want[0][:, :1], want[0][:, 1:]], 'elastic_two')
    E, nu = float(rng.uniform(.1, 10)), float(rng.uniform(0, .45))
    p3 = D.LinearElasticity(fem.mk(m), vec=3, dim=3, ele_type=m.t, additional_info=(E, nu))
    same(ctx, p3, [u], refasm.residual(p3, [m], [u], law(E, nu)), 'waveguide')
    ctx.close([p3.mu, p3.lmbda], lame(E, nu), 'waveguide', rtol=1e-12)
    # the same boundary value problem through either formulation
    x = m.points[:, 0]
    lo, hi = [int(i) for i in np.nonzero(x < x.min() + .3)[0]], [int(i) for i in np.nonzero(x > x.max() - .25)[0]]
    vals = rng.normal(size=3) * .1
    hi = [i for i in hi if i not in lo]
    full = [(lo, c, 0.) for c in range(3)] + [(hi, c, float(vals[c])) for c in range(3)]
    p1 = A.LinearElasticity(fem.mk(m), vec=3, dim=3, ele_type=m.t, dirichlet_bc_info=zoo.bc_info(full))
    p2 = B.LinearElasticity([fem.mk(m)] * 2, vec=[1, 2], dim=3, ele_type=[m.t] * 2, quadrature_order=[None, None],
                            dirichlet_bc_info=[zoo.bc_info([b for b in full if b[1] == 0]), zoo.bc_info([(i, c - 1, v) for i, c, v in full if c])])
    o = {'spsolve_solver': {}, 'tol': 1e-8}
    s1, s2 = fem.solver(p1, o), fem.solver(p2, o)
    ctx.close(np.concatenate([np.asarray(a) for a in s2], 1), s1[0], 'elastic_same_solution', rtol=1e-8)


# ---------------------------------------------------------------- hyperelasticity

def P_neo(F, mu, kappa, d):
    J = np.linalg.det(F)
    Fi = np.linalg.inv(F).T
    I1 = np.sum(F * F)
    return mu * J ** (-2. / d) * (F - I1 / d * Fi) + kappa * (J - 1) * J * Fi


def do_hyper(ctx, case, rng, fem, meshes):
    from .. import zoo, refasm
    import importlib
    jax, jnp = fem.jax, fem.np
    B = importlib.import_module('applications.arc_length.hyperelastic_models')
    N = importlib.import_module('applications.nodal_stress.example')
    S = importlib.import_module('applications.scalability.hyperelastic3d_common')
    mu = lambda E: E / 2.6
    ka = lambda E: E / 1.2
    mA, mB = m2(case, rng, meshes), m3(case, rng, meshes)
    models = [(B.BeamHyperelastic, mA, 2, 1e3, ()), (N.HyperElasticity, mB, 3, 10., ()), (S.HyperElasticityClassic, mB, 3, S.E_BASE, ()), (S.HyperElasticityInverse, mB, 3, S.E_BASE, (float(rng.uniform(.2, 2)),))]
    for C, m, d, E, extra in models:
        kw = {'location_fns': [zoo.in_ids({int(i) for k in m.boundary_faces() for i in k})]} if C in (S.HyperElasticityClassic, S.HyperElasticityInverse) else {}
        p = C(fem.mk(m), vec=d, dim=d, ele_type=m.t, **kw)
        f = p.get_tensor_map()
        for k in range(6):
            H = rng.normal(size=(d, d)) * [.05, .2, .4][k % 3]
            while np.linalg.det(np.eye(d) + H) < .2:
                H *= .7
            F = np.eye(d) + H
            e = E * (extra[0] if extra else 1.)
            P = np.asarray(f(jnp.asarray(H), *extra))
            ctx.close(P, P_neo(F, mu(e), ka(e), d), 'stress_is_energy_gradient', rtol=1e-9)
            Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
            Q[:, 0] *= np.sign(np.linalg.det(Q))
            ctx.close(f(jnp.asarray(Q @ F - np.eye(d)), *extra), Q @ P, 'objective', rtol=1e-8)
            ctx.close(f(jnp.asarray(Q - np.eye(d)), *extra), np.zeros((d, d)), 'rest_state', rtol=0, atol=1e-10 * e)
        h = .06 / max(1., len(m.cells) ** (1 / d))
        u = rng.normal(size=(len(m.points), d)) * h
        iv = ()
        if extra:
            nq = len(np.asarray(p.fes[0].quad_weights))
            iv = (rng.uniform(.2, 2., (len(m.cells), nq)),)
            p.set_params(jnp.asarray(iv[0]))

        def law(us, gs, x, *r):
            F = gs[0] + jnp.eye(d)
            J = jnp.linalg.det(F)
            e = E * (r[0] if r else 1.)
            Fi = jnp.linalg.inv(F).T
            return None, [e / 2.6 * J ** (-2. / d) * (F - jnp.sum(F * F) / d * Fi) + e / 1.2 * (J - 1) * J * Fi]
        if kw:
            ids = {int(i) for k in m.boundary_faces() for i in k}
            faces = [refasm.select_faces(p.fes[0], m, lambda i: i in ids)]
            want = refasm.residual(p, [m], [u], law, [lambda us, gs, x: [jnp.array([0., S.T_LATERAL, 0.])]], ivs=iv, faces=faces)
            ctx.event('traction')
        else:
            want = refasm.residual(p, [m], [u], law, ivs=iv)
        same(ctx, p, [u], want, 'density_scaling' if extra else 'hyper_residual', rtol=1e-8)
    # the shipped box problems: unit cube, left face fixed, right face stretched, traction on y = 1
    p, mesh = S.build_hyperelastic3d_problem_classic(2, 1, 2)
    s = fem.solver(p, {'spsolve_solver': {}, 'tol': 1e-9})
    X = np.asarray(mesh.points)
    u = np.asarray(s[0])
    ctx.close(u[X[:, 0] < 1e-6], 0 * u[X[:, 0] < 1e-6], 'traction', rtol=0, atol=1e-10)
    ctx.close(u[X[:, 0] > 1 - 1e-6], np.tile([S.STRETCH, 0., 0.], (int((X[:, 0] > 1 - 1e-6).sum()), 1)), 'traction', rtol=0, atol=1e-10)
    p2, _ = S.build_hyperelastic3d_problem_inverse(2, 1, 2)
    nq = len(np.asarray(p2.fes[0].quad_weights))
    p2.set_params(jnp.ones((len(np.asarray(mesh.cells)), nq)))
    s2 = fem.solver(p2, {'spsolve_solver': {}, 'tol': 1e-9})
    ctx.close(s2[0], u, 'density_scaling', rtol=1e-7)


# ---------------------------------------------------------------- third medium contact

def polar(F):
    import scipy.linalg
    return scipy.linalg.polar(F)[0]


def contact_energy(F2, theta, Ro):
    K, G, kR = 1. / (3 * .2), 1. / 2.8, 1e-2
    F = np.eye(3)
    F[:2, :2] = F2
    R = polar(F)
    D = np.eye(3) - R @ Ro.T
    J = np.linalg.det(F)
    iso = .5 * G * (J ** (-2. / 3) * np.sum(F * F) - 3)
    vol = .5 * K * np.log(J) ** 2
    return vol + iso if theta > .5 else 1e-6 * iso + .5 * kR * np.sum(D * D)


def do_contact(ctx, case, rng, fem, meshes):
    from .. import zoo
    jnp = fem.np
    M = load('applications/third_medium_contact/example.py', ctx.scratch, 'contact')
    m = meshes.make(['QUAD4', 'QUAD8'][int(rng.integers(2))], rng, n=[2, 2], size=[1., 1.], distort=.15)
    hi = [int(i) for i in np.nonzero(m.points[:, 1] > .9 * m.points[:, 1].max())[0]]
    p = M.Contact(fem.mk(m), vec=2, dim=2, ele_type=m.t, dirichlet_bc_info=zoo.bc_info([(hi, 1, 0.)]))
    fe = p.fes[0]
    stress, dg, rot = p.get_maps()
    for k in range(8):
        H = rng.normal(size=(2, 2)) * .25
        while np.linalg.det(np.eye(2) + H) < .25:
            H *= .7
        a = rng.uniform(-1, 1)
        Ro = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.]])
        th = [1., 0.][k % 2]
        P = np.asarray(stress(jnp.asarray(H), th, jnp.asarray(Ro)))
        fd = np.zeros((2, 2))
        for i in range(2):
            for j in range(2):
                V = np.zeros((2, 2))
                V[i, j] = 1e-5
                fd[i, j] = (contact_energy(np.eye(2) + H + V, th, Ro) - contact_energy(np.eye(2) + H - V, th, Ro)) / 2e-5
        ctx.close(P, fd, 'contact_stress', rtol=0, atol=2e-5 * (np.max(np.abs(fd)) + 1e-2))
        F3 = np.asarray(dg(jnp.asarray(H)))
        want = np.eye(3)
        want[:2, :2] += H
        ctx.close(F3, want, 'contact_rotation', rtol=0, atol=5e-6)
        ctx.close(rot(jnp.asarray(F3)), polar(F3), 'contact_rotation', rtol=0, atol=1e-6)
    nc, nq = len(m.cells), len(np.asarray(fe.quad_weights))
    u = rng.normal(size=(len(m.points), 2)) * .03
    g = at_quads(m, fe, u, True)
    want = np.zeros((nc, nq, 3, 3))
    for c in range(nc):
        Rs = []
        for q in range(nq):
            F = np.eye(3)
            F[:2, :2] += g[c, q]
            Rs.append(polar(F))
        want[c] = np.mean(Rs, 0)
    ctx.close(p.post_processing(jnp.asarray(u)), want, 'contact_average', rtol=0, atol=1e-5)
    for sc in (.3, 1.2):
        th = rng.integers(0, 2, (nc, nq)).astype(float)
        p.set_params([sc, jnp.asarray(th), jnp.asarray(want)])
        ctx.close(np.concatenate([np.asarray(v) for v in fe.vals_list]), np.full(len(hi), -sc * M.height), 'contact_bc', rtol=1e-12)
        r = np.asarray(p.compute_residual([jnp.asarray(u)])[0])
        from .. import refasm
        X, W = refasm.quad_points(fe)
        _, dN, jxw, _ = refasm.cell_geom(m.t, m.points, m.cells, X, W)
        v = rng.normal(size=u.shape)
        gv = at_quads(m, fe, v, True)
        en = lambda e: sum(jxw[c, q] * contact_energy(np.eye(2) + g[c, q] + e * gv[c, q], th[c, q], want[c, q]) for c in range(nc) for q in range(nq))
        d = (en(1e-5) - en(-1e-5)) / 2e-5
        ctx.close(np.sum(r * v), d, 'contact_stress', rtol=0, atol=1e-4 * (abs(d) + 1e-2 * np.linalg.norm(v)))


# ---------------------------------------------------------------- helpers

def do_helpers(ctx, case, rng, fem, meshes):
    import importlib
    mods = [importlib.import_module('applications.stokes.example'), load('applications/wave/example.py', ctx.scratch, 'wave'), load('applications/thermal_mechanical_full/example.py', ctx.scratch, 'tm')]
    for M in mods:
        for t in ('TRI3', 'TRI6'):
            m = meshes.make(t, rng, n=[3, 2], size=[1., 1.], distort=.2)
            flip = rng.random(len(m.cells)) < .5
            inv = [0, 2, 1] if t == 'TRI3' else [0, 2, 1, 5, 4, 3]
            C = m.cells.copy()
            C[flip] = C[flip][:, inv]
            out = np.asarray(M.transform_cells(C, m.points, t))
            ctx.check(out.shape == C.shape and all(sorted(a) == sorted(b) for a, b in zip(out.tolist(), C.tolist())), 'orientation_keeps_nodes')
            det = meshes.detJ(t, m.points, out)
            ctx.check(np.all(det > 0), 'orientation', f'{int(np.sum(det.min(-1) <= 0))} cells still clockwise')
            keep = out[~flip]
            ctx.check(np.array_equal(keep, C[~flip]), 'orientation_keeps_nodes', 'a counter-clockwise cell was changed')
            if t == 'TRI6':
                P = m.points[out]
                # mid nodes stay with their edges
                mid = .5 * (P[:, [0, 1, 2]] + P[:, [1, 2, 0]])
                ctx.close(P[:, 3:], mid, 'orientation', rtol=0, atol=1e-9)
    N = importlib.import_module('applications.nodal_stress.example')
    import basix
    from jax_fem.basis import get_elements
    for t in ('HEX8', 'TET4', 'QUAD4', 'TRI6', 'TET10', 'HEX27'):
        m = meshes.make(t, rng, n=[2] * (2 if t[0] in 'QT' and t in ('QUAD4', 'TRI6') else 3), size=[1.] * (2 if t in ('QUAD4', 'TRI6') else 3), distort=.15, curved=.03)
        p = type('Q', (fem.Problem,), {'get_tensor_map': lambda self: (lambda g: g)})(fem.mk(m), vec=1, dim=m.dim, ele_type=t)
        G = np.asarray(N.get_shape_grads_physical(p))
        r = m.ref
        fam, el, _, _, deg, _ = get_elements(t)
        pts = np.asarray(basix.create_element(fam, el, deg).points)
        Pc = m.points[m.cells]

        def exact(X):
            g = r.dN(X)
            Ji = np.linalg.inv(np.einsum('cni,qnj->cqij', Pc, g))
            return np.einsum('qnj,cqji->cqni', g, Ji)
        a, b = exact(r.nodes), exact(pts)
        ctx.event('nodal_gradient')
        sc = np.max(np.abs(a))
        if G.shape != a.shape or min(np.max(np.abs(G - a)), np.max(np.abs(G - b))) > 1e-8 * sc:
            ctx.fail('nodal_gradient', f'{t}: gradients at the nodes differ from the derivatives of the shape functions')
