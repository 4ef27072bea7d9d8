import numpy as np, itertools
from ..refelem import ref, TYPES, shape_of, DEGREE

PROPERTY = 'C02'
RULE = ('one case = a random valid mesh (type, size, distortion, curvature, rigid position, unit 3e-7..1e4, numbering) with a quadrature '
        'choice; integration weights, gradients, points and interpolated fields of the library are compared with independent geometry, '
        'for stored and explicitly passed coordinates. Non-trivial: at least one cell and all quantities compared.')
REQUIRED = ['jxw', 'volume', 'polynomial_integral', 'shape_grads', 'quad_points', 'dof_to_quad', 'sol_to_grad', 'affine_field',
            'space_field', 'explicit_points', 'problem_jxw', 'problem_points', 'problem_regeometry', 'large_mesh']


def cases(tier, rng):
    out = []
    reps = 3 if tier == 'quick' else 12
    for k in range(reps):
        for t in TYPES:
            out.append({'type': t, 'distort': float(rng.choice([0, .1, .25])), 'curved': float(rng.choice([0, 0, .12])),
                        'order': [None, None, 1, 3, 4, 6][rng.integers(6)], 'rule': [None, 'gauss_jacobi'][rng.integers(2)],
                        'scale': float(10. ** rng.uniform(-6.5, 4)), 'multi': bool(k % 3 == 2)})
    for t, n in [('QUAD4', [83, 71]), ('TRI3', [190, 181]), ('TET4', [11, 12, 9]), ('HEX8', [17, 18, 17])]:
        out.append({'type': t, 'distort': .1, 'curved': 0., 'order': None, 'rule': None, 'scale': float(10. ** rng.uniform(-3, 3)),
                    'multi': False, 'n': n})
    if tier != 'quick':
        out.append({'type': 'HEX8', 'distort': .1, 'curved': 0., 'order': None, 'rule': None, 'scale': 1., 'multi': False, 'n': [41, 42, 41]})
    return out


PAIR = {'QUAD8': 'QUAD4', 'QUAD4': 'QUAD8', 'TRI6': 'TRI3', 'TRI3': 'TRI6', 'HEX20': 'HEX8', 'HEX8': 'HEX20', 'HEX27': 'HEX8',
        'TET10': 'TET4', 'TET4': 'TET10'}


def scaled(m, s):
    from ..meshes import M
    return M(m.t, m.points * s, m.cells)


def run_case(ctx, case):
    from .. import fem, meshes, refasm
    rng = np.random.default_rng(case['seed'])
    t = case['type']
    r = ref(t)
    if case.get('n'):
        ctx.event('large_mesh')
    m0 = meshes.make(t, rng, n=case.get('n'), distort=case['distort'], curved=case['curved'], move=bool(rng.random() < .5))
    m = scaled(m0, case['scale'])
    L = case['scale']
    vec = int(rng.integers(1, 4))

    class P(fem.Problem):
        def get_universal_kernel(self):
            return lambda u, *a: u
    if case['multi']:
        # second variable on the corner mesh (or elevated mesh) of the same cells
        t2 = PAIR[t]
        m2 = companion(m, t2)
        o = case['order'] or 2
        prob = P([fem.mk(m), fem.mk(m2)], vec=[vec, 1], dim=r.dim, ele_type=[t, t2], quadrature_order=[o, o],
                 quadrature_rule=[case['rule']] * 2)
        ms = [m, m2]
    else:
        prob = P(fem.mk(m), vec=vec, dim=r.dim, ele_type=t, quadrature_order=case['order'], quadrature_rule=case['rule'])
        ms = [m]
    tol = 1e-9
    off = 0
    for i, mm in enumerate(ms):
        fe = prob.fes[i]
        X, W = refasm.quad_points(fe)
        N, dN, JxW, x = refasm.cell_geom(mm.t, mm.points, mm.cells, X, W)
        geometry(ctx, fe, mm, N, dN, JxW, x, L, None, rng)
        nn = fe.num_nodes
        ctx.close(np.asarray(prob.JxW)[:, i, :], JxW, 'problem_jxw', rtol=tol)
        ctx.close(np.asarray(prob.shape_grads)[:, :, off:off + nn], dN, 'problem_jxw', rtol=tol)
        ctx.close(np.asarray(prob.v_grads_JxW)[:, :, off:off + nn, 0, :], dN * JxW[:, :, None, None], 'problem_jxw', rtol=tol)
        if i == 0:
            ctx.close(prob.physical_quad_points, x, 'problem_points', atol=tol * np.abs(m.points).max())
        fields(ctx, fe, mm, N, dN, x, L, rng)
        off += nn
    exactness(ctx, prob.fes[0], m, case, L)
    # explicitly passed coordinates: another valid mesh with the same cells
    new = []
    A = np.eye(r.dim) + rng.uniform(-.2, .2, size=(r.dim, r.dim))
    sh = rng.uniform(-2, 2, size=r.dim) * L
    for mm in ms:
        new.append(mm.points @ A.T + sh)
    for i, mm in enumerate(ms):
        fe = prob.fes[i]
        X, W = refasm.quad_points(fe)
        before = np.array(fe.points)
        N, dN, JxW, x = refasm.cell_geom(mm.t, new[i], mm.cells, X, W)
        geometry(ctx, fe, mm, N, dN, JxW, x, L, new[i], rng)
        ctx.check(np.array_equal(before, np.asarray(fe.points)), 'explicit_points', 'stored points changed')
    prob.initialize_geometric_quantities([fem.np.asarray(p) for p in new])
    off = 0
    for i, mm in enumerate(ms):
        fe = prob.fes[i]
        X, W = refasm.quad_points(fe)
        N, dN, JxW, x = refasm.cell_geom(mm.t, new[i], mm.cells, X, W)
        nn = fe.num_nodes
        ctx.close(np.asarray(prob.JxW)[:, i, :], JxW, 'problem_regeometry', rtol=tol)
        ctx.close(np.asarray(fe.JxW), JxW, 'problem_regeometry', rtol=tol)
        ctx.close(np.asarray(prob.shape_grads)[:, :, off:off + nn], dN, 'problem_regeometry', rtol=tol)
        ctx.close(np.asarray(prob.v_grads_JxW)[:, :, off:off + nn, 0, :], dN * JxW[:, :, None, None], 'problem_regeometry', rtol=tol)
        sol = rng.normal(size=(len(mm.points), fe.vec))
        ctx.close(fe.sol_to_grad(sol), np.einsum('cqnd,cnv->cqvd', dN, sol[mm.cells]), 'problem_regeometry', rtol=tol)
        if i == 0:
            ctx.close(prob.physical_quad_points, x, 'problem_regeometry', atol=tol * np.abs(new[0]).max())
        off += nn


def companion(m, t2):
    """The same cells with element type t2 (corner subset, or straight-sided elevation)."""
    from .. import meshes
    nc = len(m.ref.corners)
    cor = m.cells[:, :nc]
    used = np.unique(cor)
    new = -np.ones(len(m.points), int)
    new[used] = np.arange(len(used))
    P, C = m.points[used], new[cor]
    if DEGREE[t2] == 2:
        P, C = meshes.elevate(t2, P, C)
    return meshes.M(t2, P, C)


def geometry(ctx, fe, mm, N, dN, JxW, x, L, pts, rng):
    tol = 1e-9
    nm = ['jxw', 'shape_grads', 'quad_points'] if pts is None else ['explicit_points'] * 3
    sg, jw = fe.get_shape_grads() if pts is None else fe.get_shape_grads(pts)
    ctx.close(jw, JxW, nm[0], rtol=tol)
    ctx.close(sg, dN, nm[1], rtol=tol)
    q = fe.get_physical_quad_points() if pts is None else fe.get_physical_quad_points(pts)
    ctx.close(q, x, nm[2], atol=tol * np.abs(mm.points if pts is None else pts).max())


def fields(ctx, fe, m, N, dN, x, L, rng):
    tol = 1e-9
    v = fe.vec
    sol = rng.normal(size=(len(m.points), v))
    ctx.close(fe.convert_from_dof_to_quad(sol), np.einsum('qn,cnv->cqv', N, sol[m.cells]), 'dof_to_quad', rtol=tol)
    ctx.close(fe.sol_to_grad(sol), np.einsum('cqnd,cnv->cqvd', dN, sol[m.cells]), 'sol_to_grad', rtol=tol)
    A, b = rng.normal(size=(v, m.dim)), rng.normal(size=v) * L
    sol = m.points @ A.T + b
    ctx.close(fe.convert_from_dof_to_quad(sol), x @ A.T + b, 'affine_field', rtol=tol, scale=np.abs(sol).max())
    ctx.close(fe.sol_to_grad(sol), np.broadcast_to(A, x.shape[:2] + A.shape), 'affine_field', atol=tol * np.abs(sol).max() / L)
    # a field of the polynomial space on cell 0, written in reference coordinates
    from .. import refasm
    r = m.ref
    X, _ = refasm.quad_points(fe)
    e = r.exps[rng.integers(len(r.exps))]
    sol = np.zeros((len(m.points), v))
    sol[m.cells[0]] = np.prod(r.nodes ** e, axis=1)[:, None]
    ctx.close(np.asarray(fe.convert_from_dof_to_quad(sol))[0], np.repeat(np.prod(X ** e, axis=1)[:, None], v, 1), 'space_field', atol=tol)


def exactness(ctx, fe, m, case, L):
    """Volume and polynomial integrals against an independent high-order rule, where the requested order suffices."""
    from . import c01
    r = m.ref
    order = c01.DEFAULT[m.t] if case['order'] is None else case['order']
    if case['multi']:
        order = case['order'] or 2
    Xf, Wf = r.quad(8)
    P = m.points[m.cells]
    J = np.einsum('cni,qnj->cqij', P, r.dN(Xf))
    D = np.linalg.det(J)
    # degree of the Jacobian determinant in reference coordinates (per variable for tensor cells), measured
    V = float(np.sum(D * Wf))
    jw = np.asarray(fe.JxW)
    xq = np.asarray(fe.get_physical_quad_points())
    xf = np.einsum('qn,cni->cqi', r.N(Xf), P)
    c0 = m.points.mean(0)
    affine = np.abs(D - D[:, :1]).max() < 1e-10 * np.abs(D).max() and case['curved'] == 0
    if r.shape in ('TRI', 'TET'):
        straight = case['curved'] == 0
        degJ = 0 if straight else None
    else:
        degJ = 0 if affine else None
    if degJ is None:
        # general distorted/curved cells: total degree of det J is bounded by dim*degree(element)*dim for tensor cells
        bound = {1: r.dim * r.dim, 2: 2 * r.dim * r.dim}[DEGREE[m.t]] if r.shape in ('QUAD', 'HEX') else r.dim * (DEGREE[m.t] - 1)
        if order >= bound or (m.t == 'HEX8' and order >= 3) or (m.t == 'QUAD4' and order >= 1):
            # tensor rules are exact per variable: det J of a HEX8/QUAD4 has degree <= 2 / <= 1 per variable
            ctx.close(jw.sum(), V, 'volume', rtol=1e-9)
        return
    ctx.close(jw.sum(), V, 'volume', rtol=1e-9)
    ctx.close(jw.sum(1), (D * Wf).sum(1), 'volume', rtol=1e-9)
    if affine or r.shape in ('TRI', 'TET'):
        for e in itertools.product(range(min(order, 4) + 1), repeat=r.dim):
            if sum(e) <= order:
                a = np.sum(jw * np.prod(((xq - c0) / L) ** np.array(e), axis=-1))
                b = np.sum(D * Wf * np.prod(((xf - c0) / L) ** np.array(e), axis=-1))
                ctx.close(a, b, 'polynomial_integral', rtol=1e-9, scale=V * max(1., np.abs((m.points - c0) / L).max() ** sum(e)))
