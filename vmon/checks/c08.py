import numpy as np
from ..refelem import ref, TYPES

PROPERTY = 'C08'
RULE = ('one case = a random problem solved on a mesh and on its transformed copy (random node numbering + cell order + local rotations; '
        'rigid motion; uniform scaling by 1e-3..1e3) with loads, boundary data and per-cell parameters transformed accordingly. '
        'Non-trivial: both solves finished, the solution is not constant, and the transformation is not the identity.')
REQUIRED = ['renumbered_solution', 'renumbered_residual', 'moved_solution', 'moved_residual', 'scaled_solution', 'surface_load', 'cell_parameters']


def cases(tier, rng):
    out = []
    for k in range(2 if tier == 'quick' else 8):
        for t in TYPES:
            tr = ['renumber', ['rigid', 'scale'][(TYPES.index(t) + k) % 2]]
            out.append({'type': t, 'flux': str(rng.choice(['lin', 'nl', 'elast', 'neo'])), 'tr': tr, 'surf': bool(rng.random() < .7), 'order': [None, 2, 3][rng.integers(3)]})
    return out


def build(m, case, Q, s, bcs, tn, iv, order, dim, zoo, fem):
    """Problem on mesh m, physically moved by x' = s*Q x + c: isotropic law, body load and traction transformed."""
    jnp = fem.np
    fl = zoo.flux_law(case['flux'], dim)
    mech = case['flux'] in ('elast', 'neo')
    vec = dim if mech else 1
    b = jnp.asarray(np.linspace(.2, .5, dim)) if mech else jnp.asarray([.7])
    h = jnp.asarray(np.linspace(-.3, .4, dim)) if mech else jnp.asarray([.5])
    Qj = jnp.asarray(Q)
    if mech:
        b, h = Qj @ b, Qj @ h
    fs = 1. / s if mech else 1. / s ** 2          # volume load
    ts = 1. if mech else 1. / s                   # surface load
    gs = 1. if mech else s                        # flux law sees gradients g; scalar fields keep their values
    d = {'get_tensor_map': lambda self: (lambda g, k: k * fl(g * gs) / gs),
         'get_mass_map': lambda self: (lambda u, x, k: -b * fs * .5),
         'custom_init': lambda self: setattr(self, 'internal_vars', [jnp.asarray(np.repeat(iv[:, None], self.fes[0].num_quads, 1))])}
    if tn:
        d['get_surface_maps'] = lambda self: [lambda u, x: -h * ts * .4]
    d.update(zoo.step_budget(40))
    C = type('P', (fem.Problem,), d)
    # -div(k fl(grad u)) with x scaled: flux in scaled problem is fl(s*g)/s so that div gives 1/s^2
    return C(fem.mk(m), vec=vec, dim=dim, ele_type=m.t, quadrature_order=order, dirichlet_bc_info=zoo.bc_info(bcs),
             location_fns=[zoo.in_ids(tn)] if tn else None)


def run_case(ctx, case):
    from .. import fem, meshes, zoo
    jnp = fem.np
    rng = np.random.default_rng(case['seed'])
    t = case['type']
    dim = ref(t).dim
    order = case['order'] if ref(t).shape in ('QUAD', 'HEX', 'TRI') else [None, 2][rng.integers(2)]
    if t in ('HEX20', 'QUAD8'):
        order = order and max(order, 3)
        order = order or 3
    m = zoo.small_mesh(t, rng, distort=.12, permute=False)
    mech = case['flux'] in ('elast', 'neo')
    vec = dim if mech else 1
    dn, rest = zoo.split_boundary(m, rng, .5)
    iv = rng.uniform(.7, 1.4, size=len(m.cells))
    tn = rest if case['surf'] else None
    ctx.event('surface_load', int(bool(tn)))
    ctx.event('cell_parameters')
    opt = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-13, 'rel_tol': 1e-9}}

    ident = np.arange(len(m.points))
    # values affine in position keep the entry list short: u_D(x) = B x + c in the reference frame
    B, c0 = rng.normal(size=(vec, dim)) * (.04 if mech else .4), rng.normal(size=vec) * (.05 if mech else .5)

    def bcs_affine(node_map, Q, s, c, T, sc):
        ids = [int(node_map[i]) for i in dn]
        Bi = T @ B @ Q.T * (sc / s)
        ci = T @ c0 * sc - Bi @ c
        return [(ids, k, (lambda p, k=k: jnp.dot(jnp.asarray(Bi[k]), p) + ci[k])) for k in range(vec)]
    I = np.eye(dim)
    Iv = np.eye(vec)
    p0 = build(m, case, I, 1., bcs_affine(ident, I, 1., np.zeros(dim), Iv, 1.), tn, iv, order, dim, zoo, fem)
    s0 = np.asarray(fem.solver(p0, opt)[0])
    f0 = rng.normal(size=s0.shape) * .02
    r0 = np.asarray(p0.compute_residual([jnp.asarray(f0)])[0])
    ctx.check(np.ptp(s0) > 1e-6, 'nontrivial_solution')
    for tr in case['tr']:
        if tr == 'renumber':
            P, C, nm, order_c = meshes.renumber(t, m.points, m.cells, rng)
            m1 = meshes.M(t, P, C)
            p1 = build(m1, case, I, 1., bcs_affine(nm, I, 1., np.zeros(dim), Iv, 1.), [int(nm[i]) for i in tn] if tn else None, iv[order_c], order, dim, zoo, fem)
            s1 = np.asarray(fem.solver(p1, opt)[0])
            ctx.close(s1[nm], s0, 'renumbered_solution', rtol=1e-7)
            f1 = np.empty_like(f0); f1[nm] = f0
            r1 = np.asarray(p1.compute_residual([jnp.asarray(f1)])[0])
            ctx.close(r1[nm], r0, 'renumbered_residual', rtol=1e-9)
        else:
            Q, s, c = I, 1., np.zeros(dim)
            if tr == 'rigid':
                Q, c = meshes.random_rotation(rng, dim), rng.normal(size=dim) * 5
            else:
                s = float(10. ** rng.uniform(-3, 3))
            m1 = meshes.M(t, s * m.points @ Q.T + c, m.cells)
            T = Q if mech else Iv
            sc = s if mech else 1.
            p1 = build(m1, case, Q, s, bcs_affine(ident, Q, s, c, T, sc), tn, iv, order, dim, zoo, fem)
            o1 = {'newton': dict(opt['newton'], tol=1e-13 * min(1., s ** (dim - 1)), rel_tol=1e-9)}
            s1 = np.asarray(fem.solver(p1, o1)[0])
            ctx.close(s1, s0 @ T.T * sc, 'moved_solution' if tr == 'rigid' else 'scaled_solution', rtol=1e-6)
            f1 = f0 @ T.T * sc
            r1 = np.asarray(p1.compute_residual([jnp.asarray(f1)])[0])
            k = s ** (dim - 1) if mech else s ** (dim - 2)
            ctx.close(r1 / k, r0 @ T.T, 'moved_residual', rtol=1e-8)
