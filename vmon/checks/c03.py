import numpy as np
from ..refelem import ref, TYPES, DEGREE

PROPERTY = 'C03'
RULE = ('one case = a random valid mesh with a random set of (cell, local face) pairs, boundary and interior, and a quadrature choice; '
        'surface weights, points, converted fields and gradients are compared per face with independent facet geometry, for stored and '
        'explicit coordinates, directly and through a Problem with several surface sets. Non-trivial: at least one face selected.')
REQUIRED = ['area', 'surface_weights', 'surface_points', 'face_shape_grads', 'dof_to_face_quad', 'points_on_face', 'divergence_theorem',
            'explicit_points', 'problem_surface', 'problem_regeometry', 'affine_field', 'polynomial_integral']


def cases(tier, rng):
    out = []
    for k in range(3 if tier == 'quick' else 12):
        for t in TYPES:
            out.append({'type': t, 'distort': float(rng.choice([0, .1, .25])), 'curved': float(rng.choice([0, 0, .12])),
                        'order': [None, None, 1, 3, 4, 6][rng.integers(6)], 'rule': [None, 'gauss_jacobi'][rng.integers(2)],
                        'scale': float(10. ** rng.uniform(-6.5, 4)), 'multi': bool(k % 3 == 2)})
    return out


def run_case(ctx, case):
    from .. import fem, meshes, refasm, zoo
    from .c02 import scaled, companion, PAIR
    rng = np.random.default_rng(case['seed'])
    t = case['type']
    r = ref(t)
    m0 = meshes.make(t, rng, distort=case['distort'], curved=case['curved'], move=bool(rng.random() < .5))
    m = scaled(m0, case['scale'])
    L = case['scale']
    vec = int(rng.integers(1, 4))
    # surfaces chosen by node sets
    nb = m.boundary_nodes()
    sets = [nb.tolist(), sorted(rng.choice(len(m.points), size=max(r.dim, int(.7 * len(m.points))), replace=False).tolist())]
    if rng.random() < .5:
        sets.append(list(range(len(m.points))))
    if rng.random() < .5:
        sets.reverse()
    nk = len(sets)
    d = {'get_universal_kernel': lambda self: (lambda u, *a: u),
         'get_universal_kernels_surface': lambda self: [lambda u, *a: u] * nk}
    C = type('P', (fem.Problem,), d)
    loc = [zoo.in_ids(s) for s in sets]
    if case['multi']:
        m2 = companion(m, PAIR[t])
        o = case['order'] or 2
        prob = C([fem.mk(m), fem.mk(m2)], vec=[vec, 1], dim=r.dim, ele_type=[t, m2.t], quadrature_order=[o, o],
                 quadrature_rule=[case['rule']] * 2, location_fns=loc)
        ms = [m, m2]
    else:
        prob = C(fem.mk(m), vec=vec, dim=r.dim, ele_type=t, quadrature_order=case['order'], quadrature_rule=case['rule'], location_fns=loc)
        ms = [m]
    fe = prob.fes[0]
    nf = len(fe.face_inds)
    allf = np.array([(c, f) for c in range(len(m.cells)) for f in range(nf)])
    sel = allf[rng.permutation(len(allf))[:rng.integers(1, len(allf) + 1)]]
    direct(ctx, fem, fe, m, sel, L, rng, None)
    exact(ctx, fe, m, sel, case, L)
    if len(m.cells) <= 12:
        divergence(ctx, fe, m, case, L, rng)
    A = np.eye(r.dim) + rng.uniform(-.2, .2, size=(r.dim, r.dim))
    sh = rng.uniform(-2, 2, size=r.dim) * L
    direct(ctx, fem, fe, m, sel, L, rng, m.points @ A.T + sh)
    through_problem(ctx, prob, ms, [mm.points for mm in ms], 'problem_surface')
    new = [mm.points @ A.T + sh for mm in ms]
    prob.initialize_geometric_quantities([fem.np.asarray(p) for p in new])
    through_problem(ctx, prob, ms, new, 'problem_regeometry')


def geo(fe, m, pts, sel):
    from .. import refasm
    return refasm.face_geom(m.t, pts, m.cells, [tuple(int(i) for i in s) for s in sel], lambda f: refasm.face_points(fe, f)[0],
                            lambda f: refasm.face_points(fe, f)[1], refasm.lib_face_corners(fe))


def direct(ctx, fem, fe, m, sel, L, rng, pts):
    tol = 1e-9
    nm = ['surface_weights', 'face_shape_grads', 'surface_points'] if pts is None else ['explicit_points'] * 3
    P = m.points if pts is None else pts
    g = geo(fe, m, P, sel)
    sel = fem.np.asarray(sel)
    sg, ns = fe.get_face_shape_grads(sel) if pts is None else fe.get_face_shape_grads(sel, pts)
    xs = fe.get_physical_surface_quad_points(sel) if pts is None else fe.get_physical_surface_quad_points(sel, pts)
    ctx.close(ns, np.array([a[2] for a in g]), nm[0], rtol=tol)
    ctx.close(sg, np.array([a[1] for a in g]), nm[1], rtol=tol)
    ctx.close(xs, np.array([a[3] for a in g]), nm[2], atol=tol * np.abs(P).max())
    if pts is not None:
        return
    v = fe.vec
    sol = rng.normal(size=(len(P), v))
    want = np.array([a[0] @ sol[m.cells[int(s[0])]] for a, s in zip(g, sel)])
    ctx.close(fe.convert_from_dof_to_face_quad(sol, sel), want, 'dof_to_face_quad', rtol=tol)
    A, b = rng.normal(size=(v, m.dim)), rng.normal(size=v) * L
    sol = P @ A.T + b
    ctx.close(fe.convert_from_dof_to_face_quad(sol, sel), np.asarray(xs) @ A.T + b, 'affine_field', atol=tol * np.abs(sol).max())
    grad = np.einsum('fqnd,fnv->fqvd', np.asarray(sg), sol[m.cells[np.asarray(sel)[:, 0]]])
    ctx.close(grad, np.broadcast_to(A, grad.shape), 'affine_field', atol=tol * np.abs(sol).max() / L)
    # points lie on the very face: the other cell coordinates reproduce them with only that face's nodes
    cor = __import__('vmon.refasm', fromlist=['x']).lib_face_corners(fe)
    for k, (c, f) in enumerate(np.asarray(sel)[:20]):
        on = m.ref.face_nodes(cor(int(f)))
        a = g[k][0]
        rest = [i for i in range(m.ref.nn) if i not in on]
        ctx.check(np.abs(a[:, rest]).max(initial=0) < 1e-10, 'points_on_face', 'weights of nodes off the face')


def exact(ctx, fe, m, sel, case, L):
    """True area of straight facets and polynomial integrals, from an independent rule."""
    from . import c01
    from .. import refasm
    order = c01.DEFAULT[m.t] if case['order'] is None else case['order']
    if case['multi']:
        order = case['order'] or 2
    cor = refasm.lib_face_corners(fe)
    import jax.numpy as jnp
    _, ns = fe.get_face_shape_grads(jnp.asarray(sel))
    xs = np.asarray(fe.get_physical_surface_quad_points(jnp.asarray(sel)))
    ns = np.asarray(ns)
    for k, (c, f) in enumerate(sel[:30]):
        X, W = m.ref.face_quad(cor(int(f)), 9)
        P = m.points[m.cells[c]]
        J = np.einsum('ni,qnj->qij', P, m.ref.dN(X))
        n = np.einsum('j,qji->qi', m.ref.face_normal(cor(int(f))), np.linalg.inv(J))
        dA = np.linalg.det(J) * np.linalg.norm(n, axis=1) * W
        x = m.ref.N(X) @ P
        flat = np.abs(dA / W - (dA / W)[0]).max() < 1e-9 * np.abs(dA / W).max()
        if flat:
            ctx.close(ns[k].sum(), dA.sum(), 'area', rtol=1e-9)
            e = np.zeros(m.dim, int)
            for d in range(m.dim):
                for p in range(1, min(order, 3) + 1):
                    # affine facet? then x is linear in the facet coordinates and degree p <= order is exact
                    if case['curved'] == 0 and (m.dim == 2 or m.ref.shape == 'TET' or case['distort'] == 0):
                        y, yq = (x[:, d] - x[0, d]) / L, (xs[k][:, d] - x[0, d]) / L
                        ctx.close(np.sum(ns[k] * yq ** p), np.sum(dA * y ** p), 'polynomial_integral',
                                  rtol=1e-9, scale=dA.sum() * max(1., np.abs(y).max() ** p))


def divergence(ctx, fe, m, case, L, rng):
    """Per cell and in total: sum of F.n over all faces = integral of div F over the cell (F affine, rule sufficient)."""
    import jax.numpy as jnp
    if case['curved'] or (case['distort'] and m.ref.shape in ('QUAD', 'HEX')) or case['order'] == 0:
        return
    order = case['order'] if case['order'] is not None else {True: 2, False: 0}[m.t not in ('TRI3', 'TET4')]
    if order < 1 and not case['multi']:
        return
    A = rng.normal(size=(m.dim, m.dim))
    nf = len(fe.face_inds)
    sel = np.array([(c, f) for c in range(len(m.cells)) for f in range(nf)])
    g = geo(fe, m, m.points, sel)
    _, ns = fe.get_face_shape_grads(jnp.asarray(sel))
    xs = np.asarray(fe.get_physical_surface_quad_points(jnp.asarray(sel)))
    c0 = m.points.mean(0)
    flux = np.array([np.sum(np.asarray(ns)[k] * np.einsum('qd,qd->q', (xs[k] - c0) @ A.T, g[k][4])) for k in range(len(sel))])
    per = flux.reshape(len(m.cells), nf).sum(1)
    V = np.asarray(fe.JxW).sum(1)
    ctx.close(per, np.trace(A) * V, 'divergence_theorem', atol=1e-9 * np.abs(flux).max())


def through_problem(ctx, prob, ms, pts, name):
    tol = 1e-9
    for k, inds in enumerate(prob.boundary_inds_list):
        inds = np.asarray(inds)
        off = 0
        for i, mm in enumerate(ms):
            fe = prob.fes[i]
            nn = fe.num_nodes
            if len(inds):
                g = geo(fe, mm, pts[i], inds)
                ctx.close(np.asarray(prob.nanson_scale[k])[:, i], np.array([a[2] for a in g]), name, rtol=tol)
                ctx.close(np.asarray(prob.selected_face_shape_grads[k])[:, :, off:off + nn], np.array([a[1] for a in g]), name, rtol=tol)
                ctx.close(np.asarray(prob.selected_face_shape_vals[k])[:, :, off:off + nn], np.array([a[0] for a in g]), name, atol=tol)
                if i == 0:
                    ctx.close(np.asarray(prob.physical_surface_quad_points[k]), np.array([a[3] for a in g]), name,
                              atol=tol * np.abs(pts[0]).max())
            off += nn
