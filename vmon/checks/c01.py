import numpy as np, itertools
from ..refelem import ref, TYPES, mono_integral, shape_of

PROPERTY = 'C01'
RULE = ('one case = element type x quadrature rule x order (every type with the default and with a list of explicit orders and rules); '
        'tabulated values are compared at every quadrature point of the cell and of every local face with independently derived '
        'shape functions, and every monomial up to the order is integrated. Non-trivial: the tables were obtained and compared.')
REQUIRED = ['shape_values', 'shape_gradients', 'points_in_cell', 'exact_integration', 'face_shape_values', 'face_shape_gradients',
            'points_on_face', 'face_exact_integration', 'face_corners', 'face_normals', 'fe_attributes', 'problem_attributes']
# documented default orders (comments in basis.get_elements: points per cell)
DEFAULT = {'HEX8': 2, 'HEX27': 10, 'HEX20': 2, 'TET4': 0, 'TET10': 2, 'QUAD4': 2, 'QUAD8': 2, 'TRI3': 0, 'TRI6': 2}


def cases(tier, rng):
    out = []
    orders = list(range(0, 7)) + [8, 10, 11, 12, 13, 15, 17, 20] if tier == 'quick' else list(range(0, 25))
    for t in TYPES:
        combos = [(None, None), ('default', None), ('gauss_jacobi', None), ('Gauss-Jacobi', 4)]
        combos += [(None, o) for o in orders] + [('gauss_jacobi', o) for o in orders[:8]]
        if shape_of(t) in ('QUAD', 'HEX'):
            combos += [(r, o) for r in ('GLL', 'gll') for o in (1, 2, 3, 5)] + [('enum:gll', 3)]
        combos += [('enum:gauss_jacobi', 3), ('enum:default', 2), ('enum:gauss_jacobi', None)]
        if shape_of(t) == 'TET':   # the face cell type (triangle) has this rule as well
            combos += [('xiao_gimbutas', o) for o in (1, 2, 3, 4, 5)] + [('Xiao-Gimbutas', 3), ('xiao_gimbutas', None if t == 'TET10' else 2)]
        for r, o in combos:
            out.append({'type': t, 'rule': r, 'order': o, 'build': bool(rng.random() < .12)})
        out[-1]['build'] = True
    return out


def run_case(ctx, case):
    from .. import fem
    import basix
    from jax_fem.basis import get_shape_vals_and_grads, get_face_shape_vals_and_grads
    t, order = case['type'], case['order']
    rule = case['rule']
    if rule and rule.startswith('enum:'):
        rule = getattr(basix.QuadratureType, rule[5:])
    r = ref(t)
    deg = DEFAULT[t] if order is None else order
    sv, sg, w = get_shape_vals_and_grads(t, quadrature_rule=rule, quadrature_order=order)
    fv, fg, fw, fn, fi = get_face_shape_vals_and_grads(t, quadrature_rule=rule, quadrature_order=order)
    check_tables(ctx, r, deg, sv, sg, w, fv, fg, fw, fn, fi)
    if not case['build']:
        return
    # the same tables reach the finite element and problem objects
    m = fem.Mesh(r.nodes, np.arange(r.nn)[None], t)
    fe = fem.FiniteElement(mesh=m, vec=1, dim=r.dim, ele_type=t, quadrature_rule=rule, quadrature_order=order)

    def same(fe, name):
        ctx.close(fe.shape_vals, sv, name, atol=1e-13)
        ctx.close(fe.shape_grads_ref, sg, name, atol=1e-13)
        ctx.close(fe.quad_weights, w, name, atol=1e-14)
        ctx.close(fe.face_shape_vals, fv, name, atol=1e-13)
        ctx.close(fe.face_shape_grads_ref, fg, name, atol=1e-13)
        ctx.close(fe.face_quad_weights, fw, name, atol=1e-14)
        ctx.close(fe.face_normals, fn, name, atol=1e-13)
        ctx.check(np.array_equal(np.asarray(fe.face_inds), np.asarray(fi)), name)
        ctx.check(fe.num_quads == len(w) and fe.num_nodes == r.nn and fe.num_faces == len(r.faces)
                  and fe.num_face_quads == fw.shape[1], name, 'counts')
    same(fe, 'fe_attributes')

    class P(fem.Problem):
        def get_tensor_map(self):
            return lambda g: g
    p = P(m, vec=1, dim=r.dim, ele_type=t, quadrature_rule=rule, quadrature_order=order)
    same(p.fes[0], 'problem_attributes')

    class P2(fem.Problem):
        def get_universal_kernel(self):
            return lambda u, *a: u
    # two variables; rule and order per variable and shared
    p = P2([m, m], vec=[1, 2], dim=r.dim, ele_type=[t, t], quadrature_rule=[rule, rule], quadrature_order=[order, order])
    same(p.fes[0], 'problem_attributes')
    same(p.fes[1], 'problem_attributes')
    p = P2([m, m], vec=[1, 2], dim=r.dim, ele_type=[t, t], quadrature_rule=rule, quadrature_order=order)
    same(p.fes[0], 'problem_attributes')
    same(p.fes[1], 'problem_attributes')


def check_tables(ctx, r, deg, sv, sg, w, fv, fg, fw, fn, fi):
    tol = 1e-11
    ctx.check(sv.shape == (len(w), r.nn) and sg.shape == (len(w), r.nn, r.dim), 'shape_values', 'table shapes')
    X = sv @ r.nodes
    ctx.close(sv, r.N(X), 'shape_values', atol=tol)
    ctx.close(sg, r.dN(X), 'shape_gradients', atol=tol * 10)
    ctx.check(inside(r, X), 'points_in_cell', lambda: X[~np.isfinite(X).all(1)])
    ctx.check(len(np.unique(np.round(X, 9), axis=0)) == len(w), 'points_in_cell', 'duplicate quadrature points')
    for e in itertools.product(range(deg + 1), repeat=r.dim):
        if sum(e) <= deg:
            ctx.close(np.sum(w * np.prod(X ** np.array(e), axis=1)), mono_integral(r.shape, e), 'exact_integration',
                      atol=1e-12, scale=1.)
    # faces
    fi = np.asarray(fi).reshape(len(fi), -1)
    want = sorted(tuple(sorted(f)) for f in r.faces)
    got = sorted(tuple(sorted(int(i) for i in f)) for f in fi)
    if not ctx.check(got == want, 'face_corners', f'{got} instead of {want}'):
        return
    nfc = len(r.faces[0])
    ctx.check(fi.shape == (len(r.faces), nfc), 'face_corners', fi.shape)
    for f in range(len(fi)):
        cor = tuple(int(i) for i in fi[f])
        X = fv[f] @ r.nodes
        ctx.close(fv[f], r.N(X), 'face_shape_values', atol=tol)
        ctx.close(fg[f], r.dN(X), 'face_shape_gradients', atol=tol * 10)
        n = r.face_normal(cor)
        ctx.close(fn[f], n, 'face_normals', atol=1e-12)
        ctx.close((X - r.nodes[cor[0]]) @ n, np.zeros(len(X)), 'points_on_face', atol=1e-12)
        ctx.check(inside(r, X), 'points_on_face', 'outside the cell')
        ctx.check(len(np.unique(np.round(X, 9), axis=0)) == fw.shape[1], 'points_on_face', 'duplicate quadrature points')
        Xr, Wr = r.face_quad(cor, n=deg // 2 + 2)
        for e in itertools.product(range(deg + 1), repeat=r.dim):
            if sum(e) <= deg:
                ctx.close(np.sum(fw[f] * np.prod(X ** np.array(e), axis=1)), np.sum(Wr * np.prod(Xr ** np.array(e), axis=1)),
                          'face_exact_integration', atol=1e-12, scale=1.)


def inside(r, X):
    t = 1e-9
    ok = np.all(X > -t)
    if r.shape in ('TRI', 'TET'):
        return ok and np.all(X.sum(1) < 1 + t)
    return ok and np.all(X < 1 + t)
