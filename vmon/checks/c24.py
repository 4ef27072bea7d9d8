import numpy as np

PROPERTY = 'C24'
RULE = ('point cases: random deformation histories of a crystal with random orientation, slip resistances (below, near and above saturation) and time step, fed through the stress and update maps; structure cases: meshes '
        'of differently oriented crystals with prescribed or solved displacement histories. An online monitor recovers the local stress from the returned one and re-evaluates the slip equations, flow and hardening rules on its '
        'own fcc systems, rotates and permutes the crystal, and differentiates its own equations. Non-trivial: slip occurred.')
REQUIRED = ['local_equation', 'stress', 'plastic_update', 'slip_update', 'hardening_update', 'orientation_kept', 'rotation_stress', 'rotation_state', 'spatial_rotation', 'crystal_symmetry', 'reference_state', 'tangent_deformation',
            'tangent_plastic', 'tangent_resistance', 'tangent_orientation', 'slip_systems', 'quaternion', 'initial_state', 'gp_state', 'structural_residual', 'structural_tangent', 'average_stress', 'solved_history', 'sensitivity', 'sensitivity_history', 'tangent_update',
            'slip_active', 'above_saturation', 'elastic_limit', 'state_only_on_update', 'set_params', 'schmid_table']
dt_list = [1e-3, .02, .05, 1.]


def cases(tier, rng):
    q = tier == 'quick'
    out = [{'kind': 'sens'} for k in range(2 if q else 12)]      # long ones first
    out += [{'kind': 'solve', 'shear': bool(k % 2)} for k in range(2 if q else 20)]
    out += [{'kind': 'mesh', 'n': [1 + k % 2, 1 + (k // 2) % 2, 1], 'dt': dt_list[k % 4]} for k in range(4 if q else 40)]
    out += [{'kind': 'point', 'amp': [3e-4, 2e-3, 8e-3, 2e-2][k % 4], 'dt': dt_list[(k // 4 + k) % 4], 'quat': k % 2 == 1} for k in range(20 if q else 240)]
    return out


# ---- the monitor's own crystal: twelve {111}<110> systems, cubic elasticity, power-law flow, saturation hardening

def fcc():
    out = []
    for nrm in ([1, 1, 1], [1, 1, -1], [1, -1, 1], [1, -1, -1]):
        for d in ([0, 1, 1], [0, 1, -1], [1, 0, 1], [1, 0, -1], [1, 1, 0], [1, -1, 0]):
            if np.dot(nrm, d) == 0:
                out.append(np.outer(d, nrm) / np.sqrt(6.))
    return np.array(out)


H, TS, GA, A0, XM, G0 = 541.5, 109.8, 2.5, 1e-3, .1, 60.8
C4 = np.zeros((3,) * 4)
for _i in range(3):
    for _j in range(3):
        C4[_i, _i, _j, _j] += 1.684e5 if _i == _j else 1.214e5
        if _i != _j:
            C4[_i, _j, _i, _j] += .754e5
            C4[_i, _j, _j, _i] += .754e5
I3 = np.eye(3)


def inv3(A):
    return np.linalg.inv(A)


class Crystal:
    """Slip systems in the order of the code under test (given as its Schmid tensors, checked against fcc())."""

    def __init__(self, SM, dt):
        self.SM, self.dt = SM, dt

    def rules(self, F, Fi, g, sl, R, S):
        """-> local residual, new Fp^-1, resistance, slip, Fe. Written so that complex increments differentiate it."""
        M = np.einsum('ia,jb,kab->kij', R, R, self.SM)
        tau = np.einsum('kij,ij->k', M, S)
        sg = np.sign(tau.real)
        ga = A0 * self.dt * (tau * sg / g) ** (1. / XM) * sg
        x = 1. - g / TS
        sx = np.sign(x.real)
        dg = np.sum(H * ga * sg * (x * sx) ** GA * sx)        # latent = self hardening
        Fn = Fi @ (I3 - np.einsum('k,kij->ij', ga, M))
        Fe = F @ Fn
        E = .5 * (Fe.T @ Fe - I3)
        Ec = R.T @ E @ R
        Sc = np.einsum('ijkl,kl->ij', C4, Ec)
        return S - R @ Sc @ R.T, Fn, g + dg, sl + ga, Fe

    def P(self, F, st, S):
        Fe = self.rules(F, *st, S)[4]
        sig = Fe @ S @ Fe.T / np.linalg.det(Fe)
        return np.linalg.det(F) * sig @ inv3(F).T

    def solve(self, F, st, S=None):
        S = np.zeros((3, 3)) if S is None else S
        f = lambda y: self.rules(F, *st, y.reshape(3, 3))[0].reshape(-1)
        y = S.reshape(-1).astype(float)
        r = f(y)
        for it in range(300):
            if np.linalg.norm(r) < 1e-9:
                return y.reshape(3, 3)
            J = np.array([f(y + 1e-30j * e).imag / 1e-30 for e in np.eye(9)]).T
            d = np.linalg.solve(J, -r)
            t = 1.
            while np.linalg.norm(f(y + t * d)) >= np.linalg.norm(r) and t > 1e-3:
                t *= .5
            y = y + t * d
            r = f(y)
        from ..core import Inconclusive
        raise Inconclusive('the monitor did not solve the local equations')

    def dP(self, F, st, S, dF=None, dst=None):
        """Directional derivative of the computed stress, by the implicit function theorem on the monitor's own equations."""
        Fc, sc, Sc = self._moved(F, st, S, dF, dst)
        return self.P(Fc, sc, Sc).imag / 1e-30

    def dnew(self, F, st, S, dF=None, dst=None):
        Fc, sc, Sc = self._moved(F, st, S, dF, dst)
        return [a.imag / 1e-30 for a in self.rules(Fc, *sc, Sc)[1:4]]

    def _moved(self, F, st, S, dF, dst):
        h = 1e-30j
        dF = np.zeros((3, 3)) if dF is None else dF
        dst = [np.zeros_like(np.asarray(a, float)) for a in st] if dst is None else dst
        Fc, sc = F + h * dF, [a + h * b for a, b in zip(st, dst)]
        rx = self.rules(Fc, *sc, S + 0j)[0].imag.reshape(-1) / 1e-30
        J = np.array([self.rules(F, *st, S + h * e.reshape(3, 3))[0].imag.reshape(-1) / 1e-30 for e in np.eye(9)]).T
        dS = np.linalg.solve(J, -rx).reshape(3, 3)
        return Fc, sc, S + h * dS


def rot(rng):
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    return Q * np.sign(np.linalg.det(Q))


def quat_of(R):
    from scipy.spatial.transform import Rotation
    x, y, z, w = Rotation.from_matrix(R).as_quat()
    return np.array([w, x, y, z])


def build(fem, M, m, dt, quats, inds, bcs=None, cls=None):
    from .. import zoo
    p = (cls or M.CrystalPlasticity)(fem.mk(m), vec=3, dim=3, ele_type=m.t, dirichlet_bc_info=zoo.bc_info(bcs), additional_info=(np.asarray(quats), np.asarray(inds)))
    p.dt = dt
    return p


def run_case(ctx, case):
    from .. import fem
    import importlib
    M = importlib.import_module('applications.crystal_plasticity.models')
    rng = np.random.default_rng(case['seed'])
    {'point': point, 'mesh': mesh_case, 'solve': solve_case, 'sens': sens_case}[case['kind']](ctx, case, rng, fem, M)


def schmid(ctx, p):
    """The twelve fcc systems, each once, up to the sign of the slip direction and of the plane normal."""
    SM = np.asarray(p.Schmid_tensors)
    own = fcc()
    ctx.check(SM.shape == (12, 3, 3), 'slip_systems', str(SM.shape))
    D = np.minimum(np.abs(SM[:, None] - own[None]).max((2, 3)), np.abs(SM[:, None] + own[None]).max((2, 3)))
    hit = D < 1e-12
    ctx.check(np.all(hit.sum(0) == 1) and np.all(hit.sum(1) == 1), 'slip_systems', 'not the twelve fcc systems')
    a = fcc()[np.argmax(hit, 1)]
    return a * np.sign(np.einsum('kij,kij->k', a, SM))[:, None, None]


def audit(ctx, K, F, st, P, new):
    """One increment at one point."""
    Fn, g, sl, R = [np.asarray(a) for a in new]
    Fe = F @ Fn
    sig = P @ F.T / np.linalg.det(F)
    Fei = inv3(Fe)
    S = np.linalg.det(Fe) * Fei @ sig @ Fei.T
    r, Fw, gw, sw, _ = K.rules(F, *st, S)
    ns = 1. + np.linalg.norm(S)
    ctx.close(r, 0 * r, 'local_equation', rtol=0, atol=2e-8 + 1e-10 * ns)
    ctx.close(Fn, Fw, 'plastic_update', rtol=0, atol=1e-9)
    ctx.close(sl, sw, 'slip_update', rtol=0, atol=1e-9)
    ctx.close(g, gw, 'hardening_update', rtol=0, atol=1e-7)
    ctx.check(np.array_equal(R, st[3]), 'orientation_kept')
    ctx.close(sig, sig.T, 'stress', rtol=0, atol=1e-10 * ns)
    if np.max(np.abs(sl - st[2])) > 1e-6:
        ctx.event('slip_active')
    else:
        ctx.event('elastic_limit')
    if np.max(st[1]) > TS:
        ctx.event('above_saturation')
    return S


def point(ctx, case, rng, fem, M):
    from .. import meshes
    jax, jnp = fem.jax, fem.np
    import scipy.linalg
    m = meshes.make('HEX8', rng, n=[1, 1, 1])
    R = rot(rng)
    q = quat_of(R) * (rng.choice([-1., 1.]))
    p = build(fem, M, m, case['dt'], [q, quat_of(rot(rng))], [0])
    K = Crystal(schmid(ctx, p), case['dt'])
    ctx.event('schmid_table')
    ctx.close(p.internal_vars[3], np.tile(R, (1, 8, 1, 1)), 'quaternion', rtol=0, atol=1e-12)
    ctx.close(p.internal_vars[0], np.tile(I3, (1, 8, 1, 1)), 'initial_state', rtol=0)
    ctx.close(p.internal_vars[1], np.full((1, 8, 12), G0), 'initial_state', rtol=0)
    ctx.close(p.internal_vars[2], np.zeros((1, 8, 12)), 'initial_state', rtol=0)
    tm, um = p.get_maps()
    stress, update = jax.jit(tm), jax.jit(um)
    tans = jax.jit(lambda u, s, du, ds: jax.jvp(lambda u, s: tm(u, *s), (u, s), (du, ds))[1])
    tanu = jax.jit(lambda u, s, du, ds: jax.jvp(lambda u, s: um(u, *s), (u, s), (du, ds))[1])
    P_of = lambda F, st: np.asarray(stress(jnp.asarray(F - I3), *map(jnp.asarray, st)))
    U_of = lambda F, st: [np.asarray(a) for a in update(jnp.asarray(F - I3), *map(jnp.asarray, st))]
    g0 = G0 * np.ones(12) if rng.random() < .3 else rng.uniform(40., 125., 12)
    st = [I3, g0, np.zeros(12), R]
    # reference state
    P = P_of(I3, st)
    ctx.close(P, np.zeros((3, 3)), 'reference_state', rtol=0, atol=1e-9)
    for a, b in zip(U_of(I3, st), st):
        ctx.close(a, b, 'reference_state', rtol=0, atol=1e-14)
    Q0 = rot(rng)
    stQ = [I3, g0, np.zeros(12), Q0 @ R]
    cube = [X for X in _cubic()]
    F = I3
    for k in range(6):
        D = rng.normal(size=(3, 3))
        D = D / np.linalg.norm(D)
        D = D - np.trace(D) / 3 * I3 * (rng.random() < .7)
        F = scipy.linalg.expm(case['amp'] * rng.uniform(.2, 1.) * D) @ F
        if k == 3:
            F = rot(rng) @ F       # the body is carried around
        P, new = P_of(F, st), U_of(F, st)
        S = audit(ctx, K, F, st, P, new)
        ctx.close(P, K.P(F, st, K.solve(F, st, S)), 'stress', rtol=0, atol=1e-7 + 1e-9 * np.linalg.norm(P))
        ctx.close(P_of(F, st), P, 'state_only_on_update', rtol=0)
        at = 1e-6 + 1e-8 * np.linalg.norm(P)
        # deformation and crystal rotated together (whole history)
        FQ = Q0 @ F @ Q0.T
        PQ, nQ = P_of(FQ, stQ), U_of(FQ, stQ)
        ctx.close(PQ, Q0 @ P @ Q0.T, 'rotation_stress', rtol=0, atol=at)
        ctx.close(nQ[0], Q0 @ new[0] @ Q0.T, 'rotation_state', rtol=0, atol=1e-8)
        ctx.close(nQ[1], new[1], 'rotation_state', rtol=0, atol=1e-6)
        ctx.close(nQ[2], new[2], 'rotation_state', rtol=0, atol=1e-8)
        # superposed rotation of space
        R2 = rot(rng)
        ctx.close(P_of(R2 @ F, st), R2 @ P, 'spatial_rotation', rtol=0, atol=at)
        ctx.close(U_of(R2 @ F, st)[2], new[2], 'spatial_rotation', rtol=0, atol=1e-8)
        # a symmetry of the crystal, with the systems' resistances carried along
        X = cube[int(rng.integers(len(cube)))]
        MX = np.einsum('ia,jb,kab->kij', X, X, K.SM)
        # system k of crystal R@X is system j with MX[k]=+-SM[j] of crystal R
        g2 = np.array([st[1][int(np.argmin(np.minimum(np.abs(K.SM - MX[k]).max((1, 2)), np.abs(K.SM + MX[k]).max((1, 2)))))] for k in range(12)])
        ctx.close(P_of(F, [st[0], g2, st[2], st[3] @ X]), P, 'crystal_symmetry', rtol=0, atol=at)
        # derivatives supplied for the tangent and the state parameters
        z = [np.zeros((3, 3)), np.zeros(12), np.zeros(12), np.zeros((3, 3))]
        for name, dF, i, scale in (('tangent_deformation', rng.normal(size=(3, 3)), None, 1.), ('tangent_plastic', None, 0, 1.), ('tangent_resistance', None, 1, 1.), ('tangent_orientation', None, 3, 1.)):
            dst = [a.copy() for a in z]
            if i is not None:
                dst[i] = rng.normal(size=z[i].shape)
            dF = np.zeros((3, 3)) if dF is None else dF
            got = tans(jnp.asarray(F - I3), [jnp.asarray(a) for a in st], jnp.asarray(dF), [jnp.asarray(a) for a in dst])
            want = K.dP(F, st, S, dF, dst)
            ctx.close(got, want, name, rtol=0, atol=1e-6 * (np.linalg.norm(want) + (1e-2 * 1e5 if i != 1 else 1e-3)))
        dF, dst = rng.normal(size=(3, 3)), [rng.normal(size=(3, 3)), rng.normal(size=12), rng.normal(size=12), np.zeros((3, 3))]
        got = tanu(jnp.asarray(F - I3), [jnp.asarray(a) for a in st], jnp.asarray(dF), [jnp.asarray(a) for a in dst])
        for a, b in zip(got[:3], K.dnew(F, st, S, dF, dst)):
            ctx.close(a, b, 'tangent_update', rtol=1e-5, atol=1e-6)
        # the same through the jacobian used for structural tangents
        if k % 3 == 0:
            C = np.asarray(jax.jacfwd(tm)(jnp.asarray(F - I3), *map(jnp.asarray, st)))
            V = rng.normal(size=(3, 3))
            want = K.dP(F, st, S, V)
            ctx.close(np.einsum('ijkl,kl->ij', C, V), want, 'tangent_deformation', rtol=1e-6, atol=1e-3)
        st, stQ = new, nQ
        st = [st[0], st[1], st[2], R]
    Z = np.asarray(tans(jnp.zeros((3, 3)), [jnp.asarray(a) for a in [I3, g0, np.zeros(12), R]], jnp.asarray(D), [jnp.zeros_like(jnp.asarray(a)) for a in st]))
    want = R @ np.einsum('ijkl,kl->ij', C4, R.T @ (.5 * (D + D.T)) @ R) @ R.T
    ctx.close(Z, want, 'reference_state', rtol=1e-9)


def _cubic():
    import itertools
    for perm in itertools.permutations(range(3)):
        for s in itertools.product([1., -1.], repeat=3):
            X = np.zeros((3, 3))
            for i, j in enumerate(perm):
                X[i, j] = s[i]
            if np.linalg.det(X) > 0:
                yield X


def own(m, u, K, st, X, W, du=None, S0=None):
    """Nodal forces, states, Piola stresses by the monitor; with du also the directional derivative of the forces."""
    from .. import refasm
    N, g, jxw, _ = refasm.cell_geom(m.t, m.points, m.cells, X, W)
    gr = np.einsum('cnv,cqnd->cqvd', u[m.cells], g)
    dg = None if du is None else np.einsum('cnv,cqnd->cqvd', du[m.cells], g)
    f, df = np.zeros_like(u), np.zeros_like(u)
    nc, nq = jxw.shape
    new = [np.zeros_like(np.asarray(a)) for a in st]
    sig = np.zeros((nc, nq, 3, 3))
    for c in range(nc):
        for q in range(nq):
            F = gr[c, q] + I3
            s = [np.asarray(a)[c, q] for a in st]
            S = K.solve(F, s)
            P = K.P(F, s, S)
            for a, b in zip(new, K.rules(F, *s, S)[1:4]):
                a[c, q] = b
            new[3][c, q] = s[3]
            sig[c, q] = P @ F.T / np.linalg.det(F)
            np.add.at(f, m.cells[c], g[c, q] @ P.T * jxw[c, q])
            if du is not None:
                np.add.at(df, m.cells[c], g[c, q] @ K.dP(F, s, S, dg[c, q]).T * jxw[c, q])
    avg = np.einsum('cqij,cq->cij', sig, jxw) / jxw.sum(1)[:, None, None]
    return f, df, new, avg


def polycrystal(ctx, case, rng, fem, M, m, dt, bcs=None, cls=None):
    nc = len(m.cells)
    Rs = [rot(rng) for _ in range(3)]
    inds = rng.integers(0, 3, nc)
    p = build(fem, M, m, dt, [quat_of(R) for R in Rs], inds, bcs, cls)
    K = Crystal(schmid(ctx, p), dt)
    nq = np.asarray(p.internal_vars[0]).shape[1]
    st = [np.tile(I3, (nc, nq, 1, 1)), np.full((nc, nq, 12), G0), np.zeros((nc, nq, 12)), np.repeat(np.array([Rs[i] for i in inds])[:, None], nq, axis=1)]
    for a, b in zip(p.internal_vars, st):
        ctx.close(a, b, 'initial_state', rtol=0, atol=1e-12)
    return p, K, st


def mesh_case(ctx, case, rng, fem, M):
    from .. import meshes, zoo, refasm
    import scipy.sparse
    jnp = fem.np
    m = meshes.make('HEX8', rng, n=case['n'], distort=.1)
    p, K, st = polycrystal(ctx, case, rng, fem, M, m, case['dt'])
    X, W = refasm.quad_points(p.fes[0])
    h = np.min(np.ptp(m.points, axis=0) / max(case['n']))
    st[1] = rng.uniform(45., 120., st[1].shape)
    p.set_params([jnp.asarray(a) for a in st])
    for a, b in zip(p.internal_vars, st):
        ctx.close(a, b, 'set_params', rtol=0)
    u = np.zeros((len(m.points), 3))
    for k in range(3):
        u = u + rng.normal(size=u.shape) * h * [.0003, .003, .001][k]
        v = rng.normal(size=u.shape)
        f, df, new, avg = own(m, u, K, st, X, W, v)
        sc = np.max(np.abs(f)) + 1e-9
        r = zoo.flat_residual(p, [u])
        ctx.close(r, f.reshape(-1), 'structural_residual', rtol=0, atol=1e-7 * sc)
        p.newton_update([jnp.asarray(u)])
        A = scipy.sparse.coo_matrix((np.asarray(p.V), (np.asarray(p.I), np.asarray(p.J))), shape=(u.size,) * 2).tocsr()
        ctx.close(A @ v.reshape(-1), df.reshape(-1), 'structural_tangent', rtol=1e-6)
        got = p.update_int_vars_gp(jnp.asarray(u), p.internal_vars)
        for a, b, t in zip(got, new, (1e-9, 1e-6, 1e-9, 0.)):
            ctx.close(a, b, 'gp_state', rtol=0, atol=t + 1e-14)
        ctx.close(p.compute_avg_stress(jnp.asarray(u), p.internal_vars), avg, 'average_stress', rtol=1e-7)
        for a, b in zip(p.internal_vars, st):
            ctx.close(a, b, 'state_only_on_update', rtol=0)
        ctx.event('slip_active', int(np.max(np.abs(new[2] - st[2])) > 1e-6))
        p.set_params(got)
        st = [np.asarray(a) for a in got]


def bar(rng, meshes, shear, s, m):
    P = m.points
    lo, hi = np.nonzero(P[:, 0] < P[:, 0].min() + 1e-9)[0], np.nonzero(P[:, 0] > P[:, 0].max() - 1e-9)[0]
    return [(lo, c, 0.) for c in range(3)] + [(hi, 0, 0. if shear else s)] + ([(hi, 1, s)] if shear else []), lo, hi


def solve_case(ctx, case, rng, fem, M):
    from .. import meshes, zoo, refasm
    jnp = fem.np
    m = meshes.make('HEX8', rng, n=[2, 1, 1], size=[1., .6, .5], distort=.0)
    dt = .05
    b0, lo, hi = bar(rng, meshes, case['shear'], 0., m)
    cls = type('Stepped', (M.CrystalPlasticity,), zoo.step_budget(200))
    p, K, st = polycrystal(ctx, case, rng, fem, M, m, dt, b0, cls)
    X, W = refasm.quad_points(p.fes[0])
    sol = [jnp.zeros((len(m.points), 3))]
    params = p.internal_vars
    for s in (.0006, .0015, .0022, .0010):
        b, lo, hi = bar(rng, meshes, case['shear'], s, m)
        p.fes[0].update_Dirichlet_boundary_conditions(zoo.bc_info(b))
        p.set_params(params)
        sol = fem.solver(p, {'spsolve_solver': {}, 'initial_guess': sol, 'tol': 1e-7, 'rel_tol': 1e-11})
        u = np.asarray(sol[0])
        f, _, new, avg = own(m, u, K, st, X, W)
        fixed = zoo.bc_dofs(b, m.points, 3)
        fx = dict(fixed)
        free = np.setdiff1d(np.arange(u.size), list(fx))
        ctx.close(f.reshape(-1)[free], np.zeros(len(free)), 'solved_history', rtol=0, atol=1e-5)
        ctx.close(u.reshape(-1)[list(fx)], list(fx.values()), 'solved_history', rtol=0, atol=1e-12)
        got = p.update_int_vars_gp(sol[0], params)
        for a, c, t in zip(got, new, (1e-8, 1e-5, 1e-8, 1e-13)):
            ctx.close(a, c, 'gp_state', rtol=0, atol=t)
        ctx.close(p.compute_avg_stress(sol[0], params), avg, 'average_stress', rtol=1e-6)
        params, st = got, [np.asarray(a) for a in got]


def sens_case(ctx, case, rng, fem, M):
    """Gradient of a stress after two increments with respect to the initial slip resistances (as in the examples)."""
    from .. import meshes, zoo
    jax, jnp = fem.jax, fem.np
    m = meshes.make('HEX8', rng, n=[2, 1, 1], size=[1., .6, .5], distort=.0)
    dt = .05
    b0, lo, hi = bar(rng, meshes, False, 0., m)
    p, K, st = polycrystal(ctx, case, rng, fem, M, m, dt, b0)
    ini = [jnp.asarray(a) for a in st]
    opts = {'spsolve_solver': {}, 'tol': 1e-8, 'rel_tol': 1e-13}
    fwd = fem.ad_wrapper(p, opts, {'spsolve_solver': {}})
    w = jnp.asarray(rng.uniform(.8, 1.2, st[1].shape))

    def sim(alpha, solve):
        params = list(ini)
        params[1] = ini[1] * (1. + (alpha - 1.) * w)
        for s in (.0012, .0024):
            b, _, _ = bar(rng, meshes, False, s, m)
            p.fes[0].update_Dirichlet_boundary_conditions(zoo.bc_info(b))
            sol = solve(params)[0]
            sig = p.compute_avg_stress(sol, params)
            params = p.update_int_vars_gp(sol, params)
        return jnp.sum(sig[:, 0, 0]) + jnp.sum(params[1][..., 3])

    def plain(params):
        p.set_params(params)
        return fem.solver(p, opts)
    h = 1e-4
    fd = (float(sim(1. + h, plain)) - float(sim(1. - h, plain))) / (2 * h)
    ctx.close(float(jax.grad(lambda a: sim(a, fwd))(1.)), fd, 'sensitivity_history', rtol=2e-4, atol=1e-4)
    ctx.check(abs(fd) > 1e-2, 'sensitivity_nonzero', f'{fd}')

    # one increment, boundary data already in place
    def one(alpha, solve, base, s=.0018):
        params = list(base)
        params[1] = base[1] * (1. + (alpha - 1.) * w)
        sol = solve(params)[0]
        return jnp.sum(p.compute_avg_stress(sol, params)[:, 0, 0]) + jnp.sum(p.update_int_vars_gp(sol, params)[2][..., 2] ** 2) * 1e3
    b, _, _ = bar(rng, meshes, False, .0018, m)
    p.fes[0].update_Dirichlet_boundary_conditions(zoo.bc_info(b))
    got = float(jax.grad(lambda a: one(a, fwd, ini))(1.))
    f1 = (float(one(1. + h, plain, ini)) - float(one(1. - h, plain, ini))) / (2 * h)
    ctx.close(got, f1, 'sensitivity', rtol=1e-4, atol=1e-4)
    ctx.check(abs(f1) > 1e-2, 'sensitivity_nonzero', f'{f1}')
